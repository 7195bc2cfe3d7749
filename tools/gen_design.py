"""Writes DESIGN.md from tools/design_head.md, tools/claims.py, properties.jsonl, seeded/."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import claims
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
out = ['## 2. Properties and how each is decided', '']
for p in props:
  pid = p['id']
  out.append(f"### {pid} – {p['title']}")
  out.append('')
  out.append(p['statement'])
  out.append('')
  if pid in claims.CLAIMED:
    out.append('**Decided by** ' + claims.CLAIMED[pid])
    if pid in claims.DESIGN:
      out += ['', claims.DESIGN[pid].strip()]
  else:
    out.append('**Not applicable:** ' + claims.NOT_APPLICABLE.get(pid, 'no contract built yet.'))
  out.append('')
seeds = ['## 3. Planted bugs', '', 'Each applies to /repo HEAD, builds and passes the stable tests; demo.sh exits 0 before and non-zero after.', '',
         '| id | property | what it breaks | needs | check |', '|---|---|---|---|---|']
res = {}
if os.path.exists(V + '/tools/seed_results.json'):
  res = json.load(open(V + '/tools/seed_results.json'))
for s in sorted(os.listdir(V + '/seeded')):
  m = json.load(open(f'{V}/seeded/{s}/meta.json'))
  seeds.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(s, '')} |")
kf = json.load(open(V + '/known_findings.json'))
fx = ['## 4. Genuine defects found', ''] + [f'* {f}' for f in kf['fixed']] + [f"* recorded (not repaired): property={k['property']} {k['what']}" for k in kf['findings']]
tail = open(V + '/tools/design_tail.md').read() if os.path.exists(V + '/tools/design_tail.md') else ''
head = open(V + '/tools/design_head.md').read()
head = head.replace('@@PROPS@@', '\n'.join(out)).replace('@@SEEDS@@', '\n'.join(seeds + [''] + fx) + '\n\n' + tail)
open(V + '/DESIGN.md', 'w').write(head)
