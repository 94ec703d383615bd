import json,os,re,ast
V='/verif'
props=[json.loads(l) for l in open(f'{V}/properties.jsonl')]
kf=json.load(open(f'{V}/known_findings.json'))
man=json.load(open(f'{V}/MANIFEST.json'))
hand=json.load(open('/tmp/hand.json'))
cat={}
if os.path.exists('/tmp/catch.json'): cat=json.load(open('/tmp/catch.json'))
out=[open('/tmp/design_head.md').read()]
for p in props:
    i=p['id']
    src=open(f'{V}/harness/checks/{i.lower()}.py').read()
    vals={}
    for n in ast.parse(src).body:
        if isinstance(n,ast.Assign) and getattr(n.targets[0],'id','') in('RULE','ASSUMPTIONS','MIN'):
            try: vals[n.targets[0].id]=ast.literal_eval(n.value)
            except Exception: pass
    h=hand[i]
    out.append(f"### {i} — {p['title']}\n")
    out.append(f"*Executed and monitored.* {vals.get('RULE','')}.\n")
    out.append(f"*Oracle.* {h['oracle']}\n")
    out.append(f"*Bounds and assumptions.* {'; '.join(vals.get('ASSUMPTIONS',[]))}.\n")
    out.append(f"*Beyond the tests.* {h['why']}\n")
    nf=sum(f.startswith(f'fixed: property={i} ') for f in kf['fixed'])
    kn=[f['what'] for f in kf['findings'] if f['property']==i]
    out.append(f"*Defects found.* {nf} repaired" + (f"; recorded as known finding: {'; '.join(kn)}." if kn else ".")+"\n")
    if h.get('false'): out.append(f"*False alarms corrected.* {h['false']}\n")
rows=sorted(os.listdir(f'{V}/seeded'))
out.append(open('/tmp/design_tail.md').read())
out.append("| planted change | property | what it needs | caught by |\n|---|---|---|---|\n"+"\n".join(f"| {r} | {json.load(open(f'{V}/seeded/{r}/meta.json'))['property']} | {json.load(open(f'{V}/seeded/{r}/meta.json'))['needs']} | {cat.get(r,'see above')} |" for r in rows if os.path.exists(f'{V}/seeded/{r}/meta.json')))
open(f'{V}/DESIGN.md','w').write("\n".join(out)+"\n")
