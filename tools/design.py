#!/usr/bin/env python3
# DESIGN.md = head + one section per property (from the harness's META and
# tools/props.py) + tail with the table of planted bugs
import re,os,json,ast
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]
def prop(id,title,stmt,over,qtext,why,files,mech,note,tech=None,na=None):
    P.append(dict(id=id,title=title,stmt=stmt,qtext=qtext,why=why,files=files,note=note,na=na))
exec(open(root+'/tools/props.py').read())
cost={}
for l in open(root+'/tools/design/cost.txt'):
    k,_,v=l.strip().partition(' ')
    cost[k]=v
def strs(t): return [m.encode().decode('unicode_escape') if '\\' in m else m for m in re.findall(r'"((?:[^"\\]|\\.)*)"',t)]
out=open(root+'/tools/design/head.md').read()
for p in sorted(P,key=lambda p:p['id']):
    out+=f"### {p['id']} {p['title']}\n\n"
    if p['na']:
        out+=f"Not applicable: {p['na']}\n\n"; continue
    t=open(root+f"/engine/src/props/{p['id'].lower()}.rs").read()
    m=t[t.index('pub const META'):]
    how=strs(m[m.index('how:'):m.index('functions:')])[0]
    fn=strs(m[m.index('functions:'):m.index('bounds:')])
    bo=strs(m[m.index('bounds:'):m.index('assumptions:')])
    asm=strs(m[m.index('assumptions:'):])
    h=re.match(r'((?://!.*\n)+)',t)
    out+=f"* **Specified**: {p['stmt']}\n* **Decided by**: {re.sub(r'  +',' ',how)}\n* **Real code executed**: {', '.join('`'+f+'`' for f in fn)}\n"
    out+=f"* **Bounds**: {'; '.join(bo)}. Quantified: {p['qtext']}.\n"
    if asm: out+=f"* **Assumes**: {'; '.join(asm)}\n"
    out+=f"* **Level note**: {p['note']}\n* **Tests cannot**: {p['why']}\n* **Cost**: {cost.get(p['id'],'a few seconds')}\n\n"
rows="| planted bug | property | caught by | needs |\n|---|---|---|---|\n"
caught={}
for l in open(root+'/tools/design/caught.txt'):
    k,_,v=l.strip().partition(' ')
    caught[k]=v
for s in sorted(os.listdir(root+'/seeded')):
    try: j=json.load(open(f'{root}/seeded/{s}/meta.json'))
    except Exception: continue
    rows+=f"| {s} | {j['property']} | {caught.get(s,'-')} | {j['needs']} |\n"
out+=open(root+'/tools/design/tail.md').read().replace('SEEDTABLE',rows)
open(root+'/DESIGN.md','w').write(out)
