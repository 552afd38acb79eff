import json,sys
r=json.load(open(sys.argv[1])); n=int(sys.argv[2]) if len(sys.argv)>2 else 170
for v in r["violations"]: print(v["key"],"|",v["msg"][:n],"|",json.dumps(v["ctx"])[:int(sys.argv[3]) if len(sys.argv)>3 else 0])
