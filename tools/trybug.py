"""Qualifies planted bugs: trybug.py [--tests] [--check] ID...  (development aid)

Applies seeded/ID/patch.diff to a scratch copy of /repo; runs its demo without
and with the patch, optionally the repository's tests and the property's check.
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(HOME='/root', LANG='C.UTF-8', PATH='/usr/bin:/bin',
           PYTHONHASHSEED='0', JAX_PLATFORMS='cpu', NO_GCE_CHECK='true',
           PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1')


def sh(cmd, cwd, env=None, timeout=900):
  r = subprocess.run(cmd, cwd=cwd, env={**ENV, **(env or {})}, text=True,
                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                     timeout=timeout)
  return r.returncode, r.stdout


def stable():
  b = json.load(open('/opt/vp/BASELINE.json'))
  for k in ('stable', 'passed', 'tests'):
    if k in b:
      return b[k]
  return b


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('ids', nargs='*')
  ap.add_argument('--tests', action='store_true')
  ap.add_argument('--check', action='store_true')
  ap.add_argument('--props')
  a = ap.parse_args()
  ids = a.ids or sorted(os.listdir(ROOT + '/seeded'))
  for i in ids:
    src = f'{ROOT}/seeded/{i}'
    meta = json.load(open(src + '/meta.json'))
    tmp = tempfile.mkdtemp(prefix='trybug.')
    try:
      repo, demo = tmp + '/repo', tmp + '/demo'
      sh(['cp', '-a', '/repo', repo], '/')
      os.mkdir(demo)
      for f in os.listdir(src):
        if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
          shutil.copy(f'{src}/{f}', demo)
      out = [i, meta['property']]
      rc, o = sh(['bash', demo + '/demo.sh'], repo)
      out.append(f'clean={rc}')
      if rc:
        print(o[-1500:])
      rc, o = sh(['git', 'apply', src + '/patch.diff'], repo)
      if rc:
        print(i, 'patch does not apply', o)
        continue
      rc, o = sh(['bash', demo + '/demo.sh'], repo)
      out.append(f'patched={rc}')
      out.append('(' + (o.strip().splitlines() or ['?'])[-1][:150] + ')')
      if a.tests:
        rc, o = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
                    'no:cacheprovider', '-n', '8', '--timeout=600',
                    'weatherbenchX'], repo, dict(PYTHONPATH=repo))
        out.append('tests: ' + o.strip().splitlines()[-1])
        if rc:
          out += re.findall(r'(?m)^(?:FAILED|ERROR).*$', o)[:5]
      if a.check:
        for p in (a.props or meta['property']).split(','):
          rc, o = sh(['bash', ROOT + '/run.sh', 'check', p], ROOT,
                     dict(REPO_ROOT=repo, VERIF_MINIMISE_S='5'))
          last = [l for l in o.splitlines() if l.startswith('violation')] or \
              o.strip().splitlines()[-2:]
          out.append(f'{p}={rc} ' + ' | '.join(last)[:300])
      print(' '.join(out), flush=True)
    finally:
      shutil.rmtree(tmp)


main()
