"""C03: result files appear atomically: never torn, mixed or littered."""
import numpy as np

from vsim import beamsim
from vsim import core
from vsim import evalrun as er
from vsim import fsim
from vsim import gen
from vsim import procsim
from checks import c01

DIRS = ['/out', '/', '/out/deep/er', '/a b']
NAMES = ['metrics.nc', 'x', 'tmp.nc', 'r#1.nc']


def setup():
  er.setup()
  procsim.install()


def make(rng, tier, index):
  if rng.random() < 0.04:
    while True:
      case = c01.gen_case(rng, tier)
      case['data']['n_init'] = min(case['data']['n_init'], 3)
      case['chunks'] = [1, None]
      if not gen.clashing(case['metrics'], case['data']):
        break
    p = er.gen_plan(rng)
    p.update(p_crash=.03, p_dup=.1, p_zombie=.8, max_faults=8, slots=3)
    case.update(mode='job', plan=p, p_fs=rng.choice([0, .1, .2]),
                old=rng.choice([0, 1]))
    return case
  n = rng.randint(1, 4 if tier == 'quick' else 6)
  return dict(
      mode='write', kind=rng.choice(['bytes', 'bytes', 'bytes', 'dofn']),
      dir=rng.choice(DIRS), name=rng.choice(NAMES), old=rng.choice([0, 1]),
      writers=[dict(size=rng.choice([0, 1, 10, 1000, 1000, 70000]),
                    n=rng.choice([1, 1, 2, 3]), host=rng.randint(0, 1),
                    skew=rng.choice([0, 0, 0, 3600, -7200, .05])) for _ in range(n)],
      readers=rng.randint(0, 2), p_fs=rng.choice([0, 0, .05, .2, .4]),
      max_faults=rng.choice([1, 2, 5]),
      p_crash=rng.choice([0, 0, .02, .1]),
      enospc=rng.choice([None, None, None, 500, 5000]),
      errors=rng.choice([0, 0, 1]), mkdir=rng.choice([0, 1]),
      jump=rng.choice([0, 0, 5, -3600]))


ERRORS = (OSError, KeyboardInterrupt, MemoryError, RuntimeError)


class Host:

  def __init__(self, name):
    self.name = name


def content_for(case, i, k):
  size = case['writers'][i]['size'] + 7 * i + k
  rs = np.random.RandomState(1000 * i + k)
  head = f'[{i}.{k}]'.encode()
  return head + rs.bytes(size)


def dofn_for(case, i, k):
  """(callable doing the write, dataset written)."""
  import xarray as xr
  from weatherbenchX import beam_pipeline as bp
  rs = np.random.RandomState(1000 * i + k)
  ds = xr.Dataset({'rmse.t': xr.DataArray(
      rs.randint(0, 99, size=3 + case['writers'][i]['size'] % 97) / 4.0, dims=['x'])})
  return ds


def execute(case, ch, st):
  if case['mode'] == 'job':
    return execute_job(case, ch, st)
  from weatherbenchX import beam_utils
  from weatherbenchX import beam_pipeline as bp
  path = case['dir'].rstrip('/') + '/' + case['name']
  url = 'sim://' + path
  plans = {}
  for i, wr in enumerate(case['writers']):
    for k in range(wr['n']):
      if case['kind'] == 'bytes':
        plans[i, k] = content_for(case, i, k)
      else:
        plans[i, k] = dofn_for(case, i, k).to_netcdf()
  plans = {k: bytes(v) for k, v in plans.items()}
  owner = {v: k for k, v in plans.items()}
  if len(owner) != len(plans):
    raise core.HarnessError('contents not unique')
  with core.World(ch) as w:
    store = fsim.Storage(w, p_fault=case['p_fs'],
                         enospc_after=case['enospc'])
    store.max_faults = case['max_faults']
    if case['errors']:
      store.errors = ERRORS
    fsim.set_storage(store)
    old = b'previous content' * 3 if case['old'] else None
    if old is not None:
      store.put(path, old)
    elif not case['mkdir']:
      store.put(path, b'')
      del store.files[path]
    hosts = [Host('h0'), Host('h1')]
    history = []  # installs: (event number, content)
    ops = {}  # (i, k) -> dict(start, end, ok)
    last = [old]
    state = dict(crashed=set())

    def observe():
      now = store.content(path)
      if now == last[0]:
        return
      if now is None:
        raise core.Violation('vanished', 'the result file disappeared')
      key = owner.get(now)
      if key is None:
        near = [k for k, v in plans.items() if v.startswith(now[:20])]
        raise core.Violation(
            'torn', f'the result file holds {len(now)} bytes that are nobody\'s '
            f'complete content (starts like {near[:3]})')
      op = ops.get(key)
      if op is None or (op['end'] is not None):
        raise core.Violation('late-install', f'content of write {key} appeared '
                             f'outside that write')
      last[0] = now
      op['installed'] = True
      history.append(key)
      w.log(f'INSTALL {key}')

    w.on_event = observe

    def writer(i):
      def body():
        wr = case['writers'][i]
        t = w.in_task()
        t.info['skew'] = wr['skew']
        for k in range(wr['n']):
          op = ops[i, k] = dict(end=None, ok=None, installed=False,
                                same=last[0] == plans[i, k])
          t.info['fs_faults'] = []
          w.yield_point('begin')
          try:
            if case['kind'] == 'bytes':
              kw = {} if case['mkdir'] else {'auto_mkdir': False}
              beam_utils.atomic_write(url, plans[i, k], **kw)
            else:
              list(bp.WriteMetrics(url).process(dofn_for(case, i, k)))
            op['ok'] = True
          except core.SimCrash:
            raise
          except BaseException as e:  # pylint: disable=broad-except
            if isinstance(e, (core.Violation, core.HarnessError)):
              raise
            op['ok'] = False
            op['error'] = f'{type(e).__name__}: {e}'
            if not t.info['fs_faults']:
              raise core.Violation(
                  'writer-failed', f'write {i, k} failed without any fault of '
                  f'its own: {type(e).__name__}: {str(e)[:200]}') from e
          observe()
          op['end'] = True
          op['faults'] = list(t.info['fs_faults'])
          w.log(f'WRITE {i, k} ok={op["ok"]} {op["faults"]}')
          if op['ok'] and not op['installed']:
            raise core.Violation('not-written', f'write {i, k} returned normally '
                                 'but its content never appeared')
          if not op['ok'] and op['installed'] and 'mv_after' not in op['faults']:
            raise core.Violation('failed-but-installed', f'write {i, k} reported '
                                 f'{op["error"]} after its content had appeared')
          w.yield_point('end')
      return body

    def reader():
      for _ in range(3):
        w.yield_point('reader')
        try:
          import fsspec
          with fsspec.open(url, 'rb') as f:
            data = f.read()
        except FileNotFoundError:
          if old is not None:
            raise core.Violation('vanished', 'a reader found no file')
          continue
        except OSError:
          continue
        if data != old and data not in owner:
          raise core.Violation('torn', f'a reader got {len(data)} bytes that are '
                               'nobody\'s complete content')
        w.count('reads')

    tasks = []
    for i, wr in enumerate(case['writers']):
      tasks.append(w.spawn(f'w{i}', writer(i), host=hosts[wr['host']]))
    for r in range(case['readers']):
      tasks.append(w.spawn(f'r{r}', reader, host=hosts[r % 2]))
    leftovers_ok = set()
    steps = 0
    while True:
      r = w.runnable()
      if not r:
        break
      steps += 1
      if steps > 20000:
        raise core.Violation('no-progress', 'writers do not finish')
      t = r[ch.pick(len(r))]
      if case['p_crash'] and t.name[0] == 'w' and ch.flip(case['p_crash']):
        w.crash([t])
        w.count('fault.writer_crash')
        leftovers_ok.add(t)
        # A dead process does nothing more.
        hook, w.on_event = w.on_event, None
        w.resume(t)
        w.on_event = hook
        observe()
        continue
      if case['jump'] and ch.flip(.05):
        w.clock.now += case['jump']
        w.count('fault.clock_jump')
      w.clock.advance(0.01 * ch.pick(4))
      w.resume(t)
    for t in tasks:
      if isinstance(t.error, core.Violation):
        raise t.error
      if t.error is not None and not isinstance(t.error, core.SimCrash):
        raise t.error
    # Litter: only what a crashed process or a failing removal left behind.
    for p in store.files:
      if p == path:
        continue
      c = store.creator.get(p)
      if c in leftovers_ok:
        w.count('probe.crash_debris')
        continue
      faults = c.info.get('all_faults', ()) if c else ()
      if 'rm' in faults:
        continue
      raise core.Violation('litter', f'file {fsim.canon(p)} left behind by '
                           f'{c.name if c else "?"}')
    n_ok = sum(1 for o in ops.values() if o['ok'])
    w.count('writes_ok', n_ok)
    w.count('writes_failed', sum(1 for o in ops.values() if o['ok'] is False))
    if len(history) > 1:
      w.count('probe.several_installs')
    if any(not o['ok'] and o['installed'] for o in ops.values()):
      w.count('probe.lost_rename_reply')
  st.absorb(w)
  st.nontrivial = len(case['writers']) > 1 or any(
      k.startswith('fault.') for k in st.counters)
  st.result(repr(history))


def execute_job(case, ch, st):
  """Every content ever visible at the output paths of a job is complete."""
  np.seterr(all='ignore')
  from weatherbenchX import aggregation
  exp = c01.expected(case)
  if not len(exp[1]):
    return
  with core.World(ch) as w:
    store = fsim.Storage(w, p_fault=case['p_fs'])
    store.max_faults = 2
    fsim.set_storage(store)
    old = b'old result' if case['old'] else None
    seen = {}
    paths = ['/out/metrics.nc', '/out/state.nc']
    if old:
      for p in paths:
        store.put(p, old)
    last = {p: old for p in paths}

    def observe():
      for p in paths:
        now = store.content(p)
        if now != last[p]:
          if now is None:
            raise core.Violation('vanished', f'{p} disappeared')
          seen.setdefault(p, []).append(now)
          last[p] = now
          w.log(f'INSTALL {p}')

    w.on_event = observe
    r = beamsim.SimRunner(w, beamsim.Plan(**case['plan']))
    er.run_job(w, case, None, nan_mask=case['agg']['masked'], runner=r)
    w.count('probe.job_done')
    r.drain_zombies()
    for p in paths:
      if not seen.get(p):
        raise core.Violation('no-output', f'the job wrote no {p}')
    for data in seen[paths[0]]:
      ds = load(data, paths[0])
      c01.compare(case, None, ds, exp)
    for data in seen[paths[1]]:
      s = aggregation.AggregationState.from_dataset(load(data, paths[1]))
      c01.compare(case, s, ds, exp)
    if len(seen[paths[0]]) + len(seen[paths[1]]) > 2:
      w.count('probe.job_wrote_again')
    extra = [p for p in store.files if p not in paths]
    if extra and not (w.counters.get('fault.worker_crash')
                      or w.counters.get('fault.fs_rm')
                      or w.counters.get('fault.zombie_crash')):
      raise core.Violation('litter', f'{[fsim.canon(p) for p in extra]}')
  st.absorb(w)
  st.nontrivial = True


def load(data, p):
  try:
    return er.load_nc(data)
  except Exception as e:  # pylint: disable=broad-except
    raise core.Violation('torn', f'{p} held {len(data)} bytes that cannot be '
                         f'read: {e}') from e


def shrink(case):
  import copy
  if case['mode'] == 'job':
    yield from c01.shrink(case)
    return
  for i in range(len(case['writers'])):
    if len(case['writers']) > 1:
      c = copy.deepcopy(case)
      del c['writers'][i]
      yield c
    for key, v in (('n', 1), ('size', 10), ('skew', 0)):
      if case['writers'][i][key] != v:
        c = copy.deepcopy(case)
        c['writers'][i][key] = v
        yield c
  for key, v in (('readers', 0), ('p_fs', 0), ('p_crash', 0), ('enospc', None),
                 ('errors', 0), ('jump', 0), ('old', 0)):
    if case[key] != v:
      yield dict(case, **{key: v})
