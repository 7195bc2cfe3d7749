"""Writes MANIFEST.json from the table below (run after editing it)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
TECH = 'contract-based deductive verification of the real code (VCs discharged by z3/cvc5)'
GEN = ('Contracts on the functions in /repo, read and instrumented mechanically on every run; '
       'each obligation is discharged for all inputs by z3/cvc5. A refuted or non-inductive obligation is '
       'reported as a violation; a bounded run of the same contracts on the real code supplies replays and is never counted as proof. ')
CLAIMED = {}
exec(open(os.path.join(ROOT, 'tools', 'claims.py')).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
  pid = p['id']
  if pid in CLAIMED:
    note = CLAIMED[pid]
    lvl = 'proof'
    if isinstance(note, tuple):
      lvl, note = note
    cmd = f'{PY} -m checks.{pid.lower()}'
    checks.append({'property': pid, 'quick_cmd': cmd, 'thorough_cmd': 'VERIF_TIER=thorough ' + cmd,
                   'evidence_file': f'evidence/{pid}.json', 'technique': TECH, 'level': lvl,
                   'level_note': GEN + note})
  else:
    na.append({'property': pid, 'reason': NOT_APPLICABLE.get(pid, 'No contract built yet.')})
m = {'version': 1, 'setup_cmd': f'{PY} -c "from vc import env; env.setup(); import z3"', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: contracts are attached by instrumenting a copy of the module source in memory on each run.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
