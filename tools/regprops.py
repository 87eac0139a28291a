#!/usr/bin/env python3
# regenerates the registration blocks (props/mod.rs, Cargo.toml features) from props/c*.rs
import re,glob,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d=root+'/engine/src/props/'
ids=sorted(os.path.basename(f)[1:-3] for f in glob.glob(d+'c[0-9]*.rs'))
deps={}
for x in ids:
    t=open(d+f'c{x}.rs').read()
    deps[x]=sorted(set(re.findall(r'super::c(\d+)',t))-{x})
s=open(d+'mod.rs').read()
i=s.index('// <mods>'); j=s.index('// </mods>')
s=s[:i]+'// <mods>\n'+''.join(f'#[cfg(feature = "c{x}")]\npub mod c{x};\n' for x in ids)+s[j:]
i=s.index('// <meta>'); j=s.index('// </meta>')
s=s[:i]+'// <meta>\n'+''.join(f'        #[cfg(feature = "c{x}")]\n        "C{x}" => c{x}::META,\n' for x in ids)+'        '+s[j:]
i=s.index('// <cases>'); j=s.index('// </cases>')
s=s[:i]+'// <cases>\n'+''.join(f'        #[cfg(feature = "c{x}")]\n        "C{x}" => c{x}::cases(thorough),\n' for x in ids)+'        '+s[j:]
s=re.sub(r'vec!\[\s*"C01".*?\]','vec!['+', '.join(f'"C{x}"' for x in ids)+']',s,flags=re.S)
open(d+'mod.rs','w').write(s)
c=open(root+'/engine/Cargo.toml').read()
i=c.index('# <features>'); j=c.index('# </features>')
q=lambda l:'['+', '.join(f'"{y}"' for y in l)+']'
c=c[:i]+'# <features>\n[features]\ndefault = ["all"]\nall = '+q('c'+x for x in ids)+'\n'+''.join(f'c{x} = {q("c"+y for y in deps[x])}\n' for x in ids)+c[j:]
open(root+'/engine/Cargo.toml','w').write(c)
