#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to keep the statements readable)."""
import json,os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append({"id":id,"title":title,"statement":" ".join(statement.split()),
      "quantifier":{"over":over,"text":" ".join(text.split())},
      "why_tests_cant":" ".join(why.split()),
      "anchors":{"files":files,"state":state or [],
        "mechanism":[{"name":a,"where":b} for a,b in mech],
        "observe_at":observe,"hook_needed":hook}})

exec(open(os.path.join(os.path.dirname(__file__),"props_body.py")).read())
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties")
