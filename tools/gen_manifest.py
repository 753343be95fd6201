#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a harness is claimed."""
import json, os, re
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(ROOT+"/properties.jsonl")]
checks=[];na=[]
NA={}
for p in props:
    i=p["id"]; h=ROOT+"/harness/%s.cc"%i
    if not os.path.exists(h):
        na.append({"property":i,"reason":NA.get(i,"no check built yet")}); continue
    src=open(h).read()
    level=re.search(r'"%s",\s*"(model_checking|exploration|fault_enumeration)"'%i,src).group(1)
    m=re.search(r'//\s*technique:\s*(.*)',src); t=m.group(1).strip() if m else "bounded exhaustive exploration of the real code against a reference model"
    n=re.search(r'//\s*note:\s*(.*)',src)
    checks.append({"property":i,"quick_cmd":"./check %s --tier quick"%i,"thorough_cmd":"./check %s --tier thorough"%i,
      "evidence_file":"evidence/%s.json"%i,"technique":t,"level":level,
      "level_note":(n.group(1).strip() if n else "Exhaustive within the bounds stated in the evidence file; trusts the reference model in harness/%s.cc and the address sanitizer build of the unmodified sources."%i)})
json.dump({"version":1,"setup_cmd":"./check --build-all","checks":checks,"not_applicable":na,
  "notes":"No hooks in /repo: the checks compile /repo/lib from the working tree with the address sanitizer and drive the public API."},
  open(ROOT+"/MANIFEST.json","w"),indent=1)
print(len(checks),"claimed",len(na),"not")
