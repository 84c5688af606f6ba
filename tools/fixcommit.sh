#!/bin/bash
# fixcommit.sh PROP "commit subject (without fix:)" "what failed": commits /repo's working-tree change as a fix and records it.
set -e
git -C /repo commit -qam "fix: $2"
H=$(git -C /repo log -1 --format=%h)
python3 - "$1" "$H" "$3" <<'P'
import json,sys
p='/verif/known_findings.json'; d=json.load(open(p))
d['fixed'].append(f'fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}')
json.dump(d,open(p,'w'),indent=1)
P
