import json,re,subprocess,os
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
title={p['id']:p['title'] for p in props}
src=open(V+'/gosym/checks.go').read()
meta=dict(re.findall(r'"((?:root|cli|gen)\.[A-Za-z0-9]+)":\s*\{bounds: "((?:[^"\\]|\\.)*)"',src))
chk={m[0]:(m[1].split(),m[2].split()) for m in re.findall(r'"(C\d\d)": pc\("C\d\d", "([^"]*)", "([^"]*)"\)',src)}
exec(open('/verif/tools/design_text.py').read())
out=[HEAD]
out.append('## Properties\n')
out.append('For each: what decides it. "Symbolic" lists the solver variables; the harness bounds are listed below under Harnesses.\n')
for p in props:
    i=p['id']
    q,t=chk[i]
    out.append(f"### {i} {title[i]}\n\n{PER[i].strip()}\n\nHarnesses: quick {', '.join(q)}"+(f"; thorough adds {', '.join(t)}" if t else '')+'.\n')
out.append('## Harnesses and their bounds\n')
for h in sorted(meta): out.append(f'- `{h}`: {meta[h]}.')
out.append('')
rows=['## Planted bugs','','Each was written from a property and the code; the last column is what the quick check of its property did at its last run.','','| bug | property | needs | result |','|---|---|---|---|']
res=dict(l.split(None,1) for l in open(V+'/tools/caught.txt').read().splitlines() if l.strip())
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {res.get(d,'?')} |")
out.append(TAIL.replace('SEEDTABLE','\n'.join(rows)))
open(V+'/DESIGN.md','w').write('\n'.join(out)+'\n')
print([i for i in chk if i not in PER])
