#!/bin/bash
# fixmany.sh ID:COMMIT ... : record fix commits of /repo with their subject line
d=$(dirname "$0")
for a in "$@"; do python3 "$d/fixed.py" "${a%%:*}" "${a##*:}" "$(git -C /repo log -1 --format=%s "${a##*:}" | sed 's/^fix: //')"; done
