# Puts DESIGN.md together: tools/design_head.md, design_tail.md, known-findings.txt, seeded/*/meta.json, tools/design_mutants.md.
import os,json,re
h=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t=open(h+'/tools/design_head.md').read()+'\n'+open(h+'/tools/design_tail.md').read()
fx=[]
for l in open(h+'/known-findings.txt'):
    m=re.match(r'fixed: property=(C\d+) (\w+) (.*)',l)
    if m: fx.append((m[1],m[2],m[3]))
fx.sort()
t=t.replace('@FIXES@','\n'.join(f'* {a} `{b}` {c}' for a,b,c in fx))
caught=json.load(open(h+'/tools/caught.json')) if os.path.exists(h+'/tools/caught.json') else {}
bs=[]
for d in sorted(os.listdir(h+'/seeded')):
    m=json.load(open(f'{h}/seeded/{d}/meta.json'))
    bs.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(d,'caught by '+m['property'])} |")
t=t.replace('@BUGS@','| bug | property | breaks | needs | result |\n|---|---|---|---|---|\n'+'\n'.join(bs))
p=h+'/tools/design_mutants.md'
t=t.replace('@MUTANTS@',open(p).read() if os.path.exists(p) else '')
open(h+'/DESIGN.md','w').write(t)
