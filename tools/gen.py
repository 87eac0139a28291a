#!/usr/bin/env python3
# writes properties.jsonl and MANIFEST.json
import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH="symbolic execution of the real generic Rust code over an SMT-backed prime-field type; obligations discharged by cvc5/z3 (integers modulo the scalar-field order) for all values within the bounds; counterexamples replayed natively"
P=[]
def prop(id,title,stmt,over,qtext,why,files,mech,note,tech=None,na=None):
    P.append(dict(id=id,title=title,stmt=stmt,over=over,qtext=qtext,why=why,files=files,mech=mech,note=note,tech=tech,na=na))
exec(open(root+'/tools/props.py').read())
with open(root+'/properties.jsonl','w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(dict(id=p['id'],title=p['title'],statement=p['stmt'],
          quantifier=dict(over=p['over'],text=p['qtext']),why_tests_cant=p['why'],
          anchors=dict(files=p['files'],mechanism=[dict(name=a,where=b) for a,b in p['mech']])))+'\n')
m=dict(version=1,setup_cmd="bash tools/setup.sh",
 hooks=dict(guard="cfg(zok_verif)",enable="RUSTFLAGS=--cfg zok_verif (env.sh)",source_commits=["4cb1fc6"]),
 checks=[dict(property=p['id'],quick_cmd=f"bash run.sh {p['id']} quick",thorough_cmd=f"bash run.sh {p['id']} thorough",
   technique=p['tech'] or TECH,level="other",level_note=p['note']) for p in P if not p['na']],
 not_applicable=[dict(property=p['id'],reason=p['na']) for p in P if p['na']])
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1)
