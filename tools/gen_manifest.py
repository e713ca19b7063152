"""Regenerates /verif/MANIFEST.json from properties.jsonl and checks/meta.py."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import meta  # pylint: disable=g-import-not-at-top

NA = {
    'C17': 'a pure function of one block of arrays: no schedule, time, I/O, '
           'randomness or second party for a simulator to control (how the '
           'values combine over chunks is C01/C06)',
    'C18': 'pure geometry of a fixed grid: nothing nondeterministic to simulate',
    'C19': 'closed-form formulas of one statistics table: nothing '
           'nondeterministic to simulate (the randomised inference is C11/C12)',
    'C20': 'a static relation between constructor arguments and cache keys: no '
           'schedule, fault or history changes it',
}
TECHNIQUE = ('deterministic simulation with fault injection: seeded search over '
             'schedules and faults of the real code in one process, checked '
             'against ')

checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
  p = json.loads(line)
  pid = p['id']
  if pid in meta.CHECKS:
    m = meta.CHECKS[pid]
    checks.append(dict(
        property=pid, quick_cmd=f'bash run.sh check {pid} --tier quick',
        thorough_cmd=f'bash run.sh check {pid} --tier thorough',
        technique=TECHNIQUE + m['oracle'], level=m['level'],
        level_note=m['note']))
  else:
    na.append(dict(property=pid, reason=NA.get(pid, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
