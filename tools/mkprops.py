#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script so that quoting stays readable).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=m[0],where=m[1]) for m in mech],observe_at=observe,hook_needed=None)))
exec(open(os.path.join(os.path.dirname(__file__),'props_src.py')).read())
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
