"""Runs checks: seeded search over many simulated runs, minimisation, replay.

  driver check  C01            (tier and seed from VERIF_TIER / VERIF_SEED)
  driver replay FILE           re-executes one recorded failure exactly
  driver prove  C01 [N]        same seeds under other hash seeds/worker counts
  driver one    C01 INDEX      one run, verbose
"""
import argparse
import collections
import errno
import gc
import hashlib
import importlib
import json
import os
import random
import selectors
import signal
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO_ROOT', '/repo')
CAP_S = {'quick': 600.0, 'thorough': 6 * 3600.0}
MIN_FRACTION = 0.25
STALL_S = 240.0


def load_check(pid):
  from vsim import core
  core.install_lock_seam()
  import logging
  logging.disable(logging.CRITICAL)
  import warnings
  warnings.simplefilter('ignore')
  mod = importlib.import_module(f'checks.{pid.lower()}')
  if hasattr(mod, 'setup'):
    mod.setup()
  gc.collect()
  gc.freeze()
  gc.set_threshold(20000, 20, 20)
  return mod


class Stats:
  """What one run did; filled in by the check."""

  def __init__(self):
    self.counters = collections.Counter()
    self.digest = hashlib.sha256()
    self.events = 0
    self.sim_s = 0.0
    self.nontrivial = False
    self.trace = []
    self.note = None

  def count(self, name, n=1):
    self.counters[name] += n

  def absorb(self, w):
    """Takes over counters, event digest and clock of a finished world."""
    w.absorbed = True
    for k, v in w.counters.items():
      self.counters[k] += v
    self.digest.update(w.digest().encode())
    self.events += w.n_events
    self.sim_s += w.clock.covered
    self.trace.extend(w.trace)
    if w.n_events:
      self.nontrivial = True

  def result(self, text):
    """Adds an observed outcome to the run's digest (determinism proof)."""
    self.digest.update(str(text).encode())


def classify(exc):
  """Violation for errors raised inside the code under test, else None."""
  from vsim import core
  e = exc
  seen = 0
  while e is not None and seen < 20:
    seen += 1
    if isinstance(e, core.Violation):
      return e
    if isinstance(e, core.HarnessError):
      return None
    last = None
    tb = e.__traceback__
    where = None
    while tb is not None:
      fn = tb.tb_frame.f_code.co_filename
      if fn.startswith(REPO + '/') or '/weatherbenchX/' in fn:
        last = 'repo'
        where = f'{os.path.relpath(fn, REPO)}:{tb.tb_frame.f_code.co_name}'
      elif fn.startswith(ROOT + '/'):
        last = 'verif'
      tb = tb.tb_next
    if last == 'repo':
      return core.Violation(
          'unexpected-error', f'{type(e).__name__}: {str(e)[:300]} in {where}')
    e = e.__cause__ or (None if e.__suppress_context__ else e.__context__)
  return None


def run_one(mod, case, chooser):
  """Returns (stats, violation or None); raises on harness errors."""
  from vsim import core
  st = Stats()
  v = None
  core.World.last_world[:] = []
  try:
    mod.execute(case, chooser, st)
  except core.Violation as e:
    v = e
  except Exception as e:  # pylint: disable=broad-except
    v = classify(e)
    if v is None:
      x, chain = e, 0
      while x is not None and chain < 20:
        if isinstance(x, (core.HarnessError, MemoryError)) or getattr(
            x, 'errno', None) in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM):
          raise
        x, chain = x.__cause__ or x.__context__, chain + 1
      # The checks handle every result of the tree they were built on, so a
      # result they cannot digest is a wrong one.
      v = core.Violation('malformed-result', ''.join(
          traceback.format_exception(e))[-1500:])
  if v is not None:
    for w in core.World.last_world:
      if not w.absorbed:
        st.absorb(w)
  return st, v


def seed_for(base, pid, i):
  h = hashlib.sha256(f'{base}/{pid}/{i}'.encode()).digest()
  return int.from_bytes(h[:6], 'big')


def make_case(mod, seed, tier, index):
  return mod.make(random.Random(seed), tier, index)


def minimise(mod, case, choices, kind, budget_s):
  """Greedy reduction of the configuration, then of the choice list."""
  from vsim import core
  t_end = time.time() + budget_s
  tries = 0

  def attempt(c, ch):
    nonlocal tries
    tries += 1
    chooser = core.Chooser(replay=ch)
    try:
      _, v = run_one(mod, c, chooser)
    except Exception:  # pylint: disable=broad-except
      return None
    if v is not None and v.kind == kind:
      return chooser.values
    return None

  # Zero/truncate first: the benign default schedule often suffices.
  for cut in (0, len(choices) // 8, len(choices) // 4, len(choices) // 2):
    if time.time() > t_end:
      break
    got = attempt(case, choices[:cut])
    if got is not None:
      choices = choices[:cut]
      break
  improved = True
  while improved and time.time() < t_end:
    improved = False
    for cand in (mod.shrink(case) if hasattr(mod, 'shrink') else ()):
      if time.time() > t_end:
        break
      for ch in (choices, []):
        got = attempt(cand, ch)
        if got is not None:
          case, choices = cand, (ch if ch == [] else got)
          improved = True
          break
      if improved:
        break
  # Shorten the choice list.
  n = len(choices)
  while n and time.time() < t_end:
    n //= 2
    if attempt(case, choices[:len(choices) - max(n, 1)]) is not None:
      choices = choices[:len(choices) - max(n, 1)]
      n = len(choices)
    if n == 0:
      break
  # Zero blocks.
  size = max(1, len(choices) // 2)
  while size >= 1 and time.time() < t_end and choices:
    i = 0
    while i < len(choices) and time.time() < t_end:
      if any(choices[i:i + size]):
        cand = choices[:i] + [0] * len(choices[i:i + size]) + choices[i + size:]
        if attempt(case, cand) is not None:
          choices = cand
      i += size
    if size == 1:
      break
    size //= 2
  while choices and choices[-1] == 0:
    choices = choices[:-1]
  return case, choices, tries


def save_replay(pid, seed, index, tier, case, choices, v, st, original, tries):
  d = os.path.join(ROOT, 'replays')
  os.makedirs(d, exist_ok=True)
  path = os.path.join(d, f'{pid}-{seed}.json')
  faults = [t for t in st.trace if t.startswith(
      ('CRASH', 'FAULT', 'DUP', 'FAIL', 'JOB', 'INTERRUPT'))]
  with open(path, 'w') as f:
    json.dump(dict(
        property=pid, seed=seed, index=index, tier=tier, case=case,
        choices=choices, kind=v.kind, message=v.message,
        signature=v.signature, digest=st.digest.hexdigest()[:16],
        faults=faults[:200], schedule=st.trace[:1500],
        minimised=dict(attempts=tries, original_choices=original,
                       kept_choices=len(choices),
                       nonzero_choices=sum(1 for c in choices if c))), f,
              indent=1, default=str)
  return path


def worker(args):
  from vsim import core
  mod = load_check(args.pid)
  out = sys.stdout

  def emit(**kw):
    out.write(json.dumps(kw, default=str) + '\n')
    out.flush()

  emit(type='ready')
  known = known_signatures(args.pid)
  for i in range(args.start, args.runs, args.step):
    seed = seed_for(args.seed, args.pid, i)
    emit(type='start', i=i, seed=seed)
    t0 = time.time()
    try:
      case = make_case(mod, seed, args.tier, i)
      case = json.loads(json.dumps(case))
      chooser = core.Chooser(seed)
      st, v = run_one(mod, case, chooser)
    except Exception:  # pylint: disable=broad-except
      emit(type='harness', i=i, seed=seed, error=traceback.format_exc()[-4000:])
      return 0
    rec = dict(type='run', i=i, seed=seed, wall=time.time() - t0,
               counters=dict(st.counters), events=st.events, sim_s=st.sim_s,
               digest=st.digest.hexdigest()[:16], nontrivial=st.nontrivial,
               note=st.note, choices=len(chooser.values))
    if i < 2 * args.step:
      rec['sample'] = dict(index=i, seed=seed, case=case,
                           choices=len(chooser.values), events=st.events,
                           trace_head=st.trace[:12])
    if v is not None:
      rec['violation'] = dict(kind=v.kind, message=v.message,
                              signature=v.signature)
      if v.signature not in known:
        emit(type='violating', i=i, seed=seed)
        budget = float(os.environ.get('VERIF_MINIMISE_S', '60'))
        choices = list(chooser.values)
        mcase, mch, tries = minimise(mod, case, choices, v.kind, budget)
        ch2 = core.Chooser(replay=mch)
        try:
          st2, v2 = run_one(mod, mcase, ch2)
        except Exception:  # pylint: disable=broad-except
          v2 = None
        if v2 is None:  # keep the unreduced execution
          mcase, mch = case, choices
          st2, v2 = run_one(mod, mcase, core.Chooser(replay=mch))
          v2 = v2 or v
        rec['violation'] = dict(kind=v2.kind, message=v2.message,
                                signature=v2.signature)
        rec['replay'] = save_replay(args.pid, seed, i, args.tier, mcase, mch,
                                    v2, st2, len(choices), tries)
    emit(**rec)
  emit(type='end')
  return 0


def known_signatures(pid):
  return {s: what for p, s, what in known_findings() if p == pid}


def known_findings():
  """Lines: finding: property=<id> signature=<sig> <what fails>."""
  path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
  out = []
  if os.path.exists(path):
    for line in open(path):
      if line.startswith('finding: '):
        parts = line[len('finding: '):].strip().split(' ', 2)
        out.append((parts[0].split('=', 1)[1], parts[1].split('=', 1)[1],
                    parts[2] if len(parts) > 2 else ''))
  return out


class Proc:

  def __init__(self, args, k, step, runs):
    env = dict(os.environ)
    self.p = subprocess.Popen(
        [sys.executable, '-m', 'vsim.driver', 'worker', args.pid,
         '--start', str(k), '--step', str(step), '--runs', str(runs),
         '--seed', str(args.seed), '--tier', args.tier],
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=ROOT, env=env,
        start_new_session=True)
    self.buf = b''
    self.err = b''
    self.last = time.time()
    self.cur = None
    self.ended = False
    self.minimising = False
    os.set_blocking(self.p.stdout.fileno(), False)
    os.set_blocking(self.p.stderr.fileno(), False)

  def kill(self):
    try:
      os.killpg(self.p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
      pass


def check(args):
  t0 = time.time()
  signal.signal(signal.SIGTERM, lambda *_: sys.exit(3))  # workers end with it
  tier = args.tier
  import checks.meta as meta
  m = meta.CHECKS[args.pid]
  runs = args.runs or m['runs'][tier]
  n_workers = args.workers or min(8, os.cpu_count() or 1, runs)
  cap = CAP_S[tier]
  evidence_path = os.path.join(ROOT, 'evidence', f'{args.pid}.json')
  os.makedirs(os.path.dirname(evidence_path), exist_ok=True)
  if os.path.exists(evidence_path):
    os.remove(evidence_path)
  procs = [Proc(args, k, n_workers, runs) for k in range(n_workers)]
  sel = selectors.DefaultSelector()
  for p in procs:
    sel.register(p.p.stdout, selectors.EVENT_READ, (p, 'o'))
    sel.register(p.p.stderr, selectors.EVENT_READ, (p, 'e'))
  counters = collections.Counter()
  digests = set()
  done = 0
  nontrivial = 0
  events = 0
  sim_s = 0.0
  samples = []
  violation = None
  known_hits = collections.Counter()
  harness = None
  known = known_signatures(args.pid)
  walls = []
  capped = False
  minimising_until = None

  def handle(p, rec):
    nonlocal done, nontrivial, events, sim_s, violation, harness
    nonlocal minimising_until
    p.last = time.time()
    ty = rec['type']
    if ty == 'start':
      p.cur = rec
    elif ty == 'violating':
      p.minimising = True
      p.last = time.time() + float(os.environ.get('VERIF_MINIMISE_S', '60')) * 3
    elif ty == 'harness':
      if harness is None:
        harness = rec
    elif ty == 'end':
      p.ended = True
    elif ty == 'run':
      p.cur = None
      p.minimising = False
      done += 1
      counters.update(rec['counters'])
      events += rec['events']
      sim_s += rec['sim_s']
      walls.append(rec['wall'])
      if rec['nontrivial']:
        if rec['digest'] not in digests:
          digests.add(rec['digest'])
          nontrivial += 1
      if 'sample' in rec and len(samples) < 4:
        samples.append(rec['sample'])
      v = rec.get('violation')
      if v:
        if v['signature'] in known:
          known_hits[v['signature']] += 1
        elif violation is None:
          violation = rec

  try:
    while True:
      for key, _ in sel.select(timeout=1.0):
        p, which = key.data
        try:
          data = os.read(key.fd, 1 << 16)
        except BlockingIOError:
          continue
        if not data:
          sel.unregister(key.fileobj)
          continue
        if which == 'e':
          p.err = (p.err + data)[-20000:]
          continue
        p.buf += data
        while b'\n' in p.buf:
          line, p.buf = p.buf.split(b'\n', 1)
          try:
            rec = json.loads(line)
          except ValueError:
            continue
          handle(p, rec)
      if violation or harness:
        break
      live = [p for p in procs if not p.ended]
      for p in live:
        if p.p.poll() is not None and not p.ended:
          # Drain happened above on EOF; a dead worker without 'end' is bad.
          if p.p.stdout not in [
              k.fileobj for k in sel.get_map().values()]:
            harness = dict(i=(p.cur or {}).get('i'), error=(
                f'worker died rc={p.p.returncode}: '
                + p.err.decode('utf8', 'replace')[-3000:]))
        elif time.time() - p.last > STALL_S:
          if p.cur is not None:
            violation = dict(seed=p.cur['seed'], i=p.cur['i'], violation=dict(
                kind='hang', message=f'run made no progress for {STALL_S} s',
                signature='hang'), replay=None)
          else:
            harness = dict(i=None, error='worker start-up stalled: '
                           + p.err.decode('utf8', 'replace')[-2000:])
      if violation or harness or not live:
        break
      if time.time() - t0 > cap:
        # Let a worker that is minimising finish.
        if any(p.minimising for p in procs) and time.time() - t0 < cap + 200:
          continue
        capped = True
        break
  finally:
    for p in procs:
      p.kill()
    for p in procs:
      try:
        p.p.wait(10)
      except Exception:  # pylint: disable=broad-except
        pass
  wall = time.time() - t0
  if violation is not None and violation.get('replay') is None:
    from vsim import core  # unminimised replay (hang)
    seed = violation['seed']
    mod = importlib.import_module(f'checks.{args.pid.lower()}')
    case = make_case(mod, seed, tier, violation['i'])
    path = os.path.join(ROOT, 'replays', f'{args.pid}-{seed}.json')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    json.dump(dict(property=args.pid, seed=seed, index=violation['i'],
                   tier=tier, case=case, choices=None, kind='hang'),
              open(path, 'w'), default=str)
    violation['replay'] = path
  faults = {k[len('fault.'):]: v for k, v in sorted(counters.items())
            if k.startswith('fault.')}
  probes = {k[len('probe.'):]: v for k, v in sorted(counters.items())
            if k.startswith('probe.')}
  others = {k: v for k, v in sorted(counters.items())
            if not k.startswith(('fault.', 'probe.'))}
  missing = [p for p in m.get('required_probes', ())
             if not counters.get('probe.' + p) and not counters.get('fault.' + p)]
  coverage = dict(
      evaluations=done,
      distinct_nontrivial=nontrivial,
      rule=m['rule'],
      samples=samples or [dict(note='no run completed')],
      runs_requested=runs,
      seeds_per_hour=round(done / max(wall, 1e-9) * 3600),
      simulated_events=events,
      simulated_seconds=round(sim_s, 3),
      distinct_executions_measure='sha256 over the ordered event log (task '
      'switches, storage operations, commits, crashes) and outcome of a run',
      faults_injected=faults,
      reach_probes=probes,
      required_probes_missing=missing,
      other_counts=others,
      real_components=m['real'],
      stubbed_components=m['stub'],
      known_finding_hits=dict(known_hits),
      capped_by_time=capped)
  ev = dict(property=args.pid, tier=tier, seed=args.seed, level=m['level'],
            coverage=coverage, assumptions=m['assumptions'],
            wall_s=round(wall, 2), violations=1 if violation else 0)
  with open(evidence_path, 'w') as f:
    json.dump(ev, f, indent=1, default=str)
  for sig, what in known.items():
    if known_hits.get(sig):
      print(f'KNOWN-FINDING: property={args.pid} {what}')
  if violation:
    v = violation['violation']
    print(f'violation of {args.pid} in run {violation["i"]} '
          f'(seed {violation["seed"]}): {v["kind"]}: {v["message"][:2000]}')
    print(f'VIOLATION property={args.pid} replay={violation["replay"]}')
    return 1
  if harness:
    print(f'HARNESS ERROR in run {harness.get("i")}:\n{harness["error"]}')
    return 2
  if capped and done < MIN_FRACTION * runs:
    print(f'NO ANSWER: only {done} of {runs} runs within {cap:.0f} s')
    return 2
  if missing:
    print(f'NO ANSWER: never reached: {missing}')
    return 2
  print(f'{args.pid} held on {done} runs ({nontrivial} distinct) in {wall:.0f} s;'
        f' faults: {faults}')
  return 0


def replay(args):
  from vsim import core
  rec = json.load(open(args.file))
  pid = rec['property']
  mod = load_check(pid)
  ch = core.Chooser(rec['seed']) if rec['choices'] is None else core.Chooser(
      replay=rec['choices'])
  st, v = run_one(mod, rec['case'], ch)
  if v is None:
    print('no violation on this tree')
    return 0
  same = v.kind == rec['kind'] and (
      'digest' not in rec or st.digest.hexdigest()[:16] == rec['digest'])
  print(f'{v.kind}: {v.message}')
  print('reproduced exactly' if same else
        f'reproduced (recorded kind {rec["kind"]}, digest differs)')
  print(f'VIOLATION property={pid} replay={args.file}')
  return 1


def prove(args):
  """Same seeds, other hash seed and worker split: identical digests."""
  n = args.runs or 24
  base = None
  for hs, workers in (('0', 1), ('0', 3), ('1', 2), ('4242', 2)):
    env = dict(os.environ, PYTHONHASHSEED=hs)
    got = {}
    ps = [subprocess.Popen(
        [sys.executable, '-m', 'vsim.driver', 'worker', args.pid, '--start',
         str(k), '--step', str(workers), '--runs', str(n), '--seed',
         str(args.seed), '--tier', args.tier], stdout=subprocess.PIPE, cwd=ROOT,
        env=env) for k in range(workers)]
    for p in ps:
      for line in p.communicate()[0].splitlines():
        r = json.loads(line)
        if r['type'] == 'run':
          got[r['i']] = (r['digest'], r['events'], r['choices'])
        if r['type'] == 'harness':
          print(r['error'])
    if base is None:
      base = got
    diff = [i for i in sorted(base) if base[i] != got.get(i)]
    print(f'{args.pid} PYTHONHASHSEED={hs} workers={workers}: {len(got)} runs, '
          f'{len(diff)} differ {diff[:10]}')
  return 0


def one(args):
  from vsim import core
  mod = load_check(args.pid)
  seed = seed_for(args.seed, args.pid, args.start)
  case = json.loads(json.dumps(make_case(mod, seed, args.tier, args.start)))
  print(json.dumps(case)[:3000])
  ch = core.Chooser(seed)
  t0 = time.time()
  st, v = run_one(mod, case, ch)
  print('\n'.join(st.trace[:args.runs or 40]))
  print(dict(st.counters), 'events', st.events, 'choices', len(ch.values),
        'digest', st.digest.hexdigest()[:16], f'{time.time()-t0:.2f}s')
  print('VIOLATION' if v else 'ok', v or '')
  return 0


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('cmd')
  ap.add_argument('pid')
  ap.add_argument('file', nargs='?')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
  ap.add_argument('--seed', type=int,
                  default=int(os.environ.get('VERIF_SEED') or 1))
  ap.add_argument('--runs', type=int, default=0)
  ap.add_argument('--workers', type=int, default=0)
  ap.add_argument('--start', type=int, default=0)
  ap.add_argument('--step', type=int, default=1)
  args = ap.parse_args()
  if args.cmd == 'replay':
    args.file = args.pid
    return replay(args)
  if args.cmd == 'one' and args.file:
    args.start = int(args.file)
  if args.cmd == 'prove' and args.file:
    args.runs = int(args.file)
  return dict(check=check, worker=worker, prove=prove, one=one)[args.cmd](args)


if __name__ == '__main__':
  sys.exit(main())
