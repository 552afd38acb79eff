"""fixed.py ID COMMIT TEXT  |  fixed.py --known ID KEY TEXT : record an entry in known_findings.json"""
import json, sys, os
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(f))
if sys.argv[1] == "--known":
    d["findings"].append(dict(property=sys.argv[2], key=sys.argv[3], what=sys.argv[4]))
else:
    d["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[1:4]))
json.dump(d, open(f, "w"), indent=1)
