"""Regenerates MANIFEST.json from the check modules present."""
import json, os, re
H=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l) for l in open(H+'/properties.jsonl')]
checks=[];missing=[]
for p in props:
  f=[x for x in os.listdir(H+'/checks') if x.lower().startswith(p['id'].lower()+'_')]
  if not f: missing.append(p['id']); continue
  src=open(H+'/checks/'+f[0]).read()
  g=lambda n,d: (re.search(rf"^{n} = (\(.*?\)|'.*?')$",src,re.S|re.M) or [None,repr(d)])[1]
  checks.append(dict(property=p['id'],quick_cmd=f"bash check.sh {p['id']} quick",
    thorough_cmd=f"bash check.sh {p['id']} thorough",evidence_file=f"evidence/{p['id']}.json",
    technique=eval(g('TECHNIQUE','property-based testing (Hypothesis, structured generators, shrinking) against an explicit reference model')),
    level=eval(g('LEVEL','exploration')),
    level_note=eval(g('LEVEL_NOTE','Generated-input search: no disagreement with the oracle on the cases counted in the evidence file; trusts numpy/xarray/pandas and the stated assumptions.'))))
m=dict(version=1,setup_cmd='bash setup.sh',checks=checks,not_applicable=[dict(property=i,reason='check not built yet') for i in missing],
  notes='All checks are pure Python over /repo (nothing to build); see DESIGN.md. Replay: bash check.sh replay <file>.')
json.dump(m,open(H+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks; missing',missing)
