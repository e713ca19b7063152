"""C02: crashes, retries, duplicates and zombies never change a job's result."""
import numpy as np

from vsim import beamsim
from vsim import core
from vsim import evalrun as er
from vsim import fsim
from vsim import gen
from checks import c01


def setup():
  er.setup()


def worker_setup():
  """The job's per-worker initialisation."""
  w = core.world()
  t = w.in_task()
  if t is not None and t.host is not None:
    w.yield_point('setup_fn')
    t.host.setup_calls += 1
    w.log(f'SETUP {t.host.name}')


class NeedsSetup(er.Recording):

  def load_chunk(self, init_times, lead_times=None, reference=None):
    w = core.world()
    t = w.in_task()
    if t is not None and t.host.setup_calls == 0:
      raise core.Violation('load-before-setup', f'loader {self.tag} used on '
                           f'{t.host.name} before setup_fn ran there')
    return super().load_chunk(init_times, lead_times, reference)


def make(rng, tier, index):
  while True:
    case = c01.gen_case(rng, tier)
    case['mode'] = 'beam'
    d = case['data']
    if rng.random() < 0.15 and not d['n_ens'] and 'LevelSelect' not in (
        case['metrics']):
      # NaNs left out, in statistics that share memory with the loaded data.
      case['agg'].update(skipna=True, masked=False)
      case['metrics'] = list(dict.fromkeys(
          case['metrics'] + [rng.choice(['RawP', 'RawT'])]))
      case['metrics'] = [m for m in case['metrics'] if m != 'SEEPS']
      gen.fit_agg(case['agg'], case['metrics'])
      d['nan'] = [{'in': s, 'var': v, 'idx': {
          k: rng.randrange(8) for k in ('init_time', 'valid_time', 'latitude')}}
                  for v in d['vars'] for s in 'pt']
    if rng.random() < 0.8:
      case['chunks'] = [rng.choice([1, 1, 2]), rng.choice([1, 2, None])]
    if er.n_chunks(case) <= (12 if tier == 'quick' else 24):
      break
  p = er.gen_plan(rng)
  p.update(p_crash=rng.choice([0, .01, .03, .08]),
           p_elem_fail=rng.choice([0, .02, .06]),
           p_dup=rng.choice([0, .03, .1]), max_faults=rng.choice([2, 6, 12]),
           reprocess=rng.choice([0, 0.1, 0.3]),
           p_zombie=rng.choice([.1, .3]))
  if not (p['p_crash'] or p['p_elem_fail'] or p['p_dup']):
    p['p_crash'] = .05
  case['plan'] = p
  case['p_fs'] = rng.choice([0, 0, .1, .3])
  case['setup_fn'] = rng.choice([0, 1])
  return case


def snapshot(w, store):
  out = {}
  for path in (er.OUT, er.STATE):
    p = path[len('sim://'):]
    data = store.content(p)
    out[p] = data
  return out


def execute(case, ch, st):
  from weatherbenchX import aggregation
  np.seterr(all='ignore')
  d = case['data']
  exp = c01.expected(case)
  if not len(exp[1]):
    return
  nan_mask = case['agg']['masked']
  clash = gen.clashing(case['metrics'], d)
  with core.World(ch) as w:
    store = fsim.Storage(w, p_fault=case['p_fs'])
    store.max_faults = 2
    fsim.set_storage(store)
    pl, tl = er.loaders(case, nan_mask=nan_mask)
    before = [gen.snap(pl._ds) if getattr(pl, '_ds', None) is not None else None,
              gen.snap(tl._ds) if getattr(tl, '_ds', None) is not None else None]
    metrics = gen.make_metrics(case['metrics'], d)
    agg = gen.make_agg(case['agg'], d)
    times = er.make_times(case)
    t_before = [np.array(times.init_times), np.array(times.lead_times)]
    cls = NeedsSetup if case['setup_fn'] else er.Recording
    r = beamsim.SimRunner(w, beamsim.Plan(**case['plan']))
    try:
      er.run_job(w, case, None, cls(pl, 'P'), cls(tl, 'T'), metrics, agg, times,
                 state=None if clash else er.STATE,
                 setup_fn=worker_setup if case['setup_fn'] else None, runner=r)
    except beamsim.JobFailed as e:
      raise core.Violation('job-failed', f'job failed although every injected '
                           f'fault could be retried: {e}') from e
    w.count('probe.job_done')
    r.drain_zombies()
    values = er.load_nc(_content(store, '/out/metrics.nc'))
    state = None
    if not clash:
      state = aggregation.AggregationState.from_dataset(
          er.load_nc(_content(store, '/out/state.nc')))
    c01.compare(case, state, values, exp)
    # Nothing the caller handed over has changed.
    after = [gen.snap(pl._ds) if getattr(pl, '_ds', None) is not None else None,
             gen.snap(tl._ds) if getattr(tl, '_ds', None) is not None else None]
    if before != after:
      raise core.Violation('source-modified', 'loader source changed')
    if not all(np.array_equal(a, b) for a, b in zip(
        t_before, [times.init_times, times.lead_times])):
      raise core.Violation('times-modified', 'time chunks changed')
    for m in case['metrics']:
      w.count('metric.' + m)
    if w.counters.get('discarded_duplicate_outputs'):
      w.count('probe.duplicate_discarded')
    if w.counters.get('bundle_retries'):
      w.count('probe.retried')
    if case['setup_fn']:
      w.count('probe.setup_fn')
  st.absorb(w)
  st.nontrivial = any(k.startswith('fault.') for k in st.counters)
  st.result(repr(sorted(map(str, values))))


def _content(store, path):
  data = store.content(path)
  if data is None:
    raise core.Violation('no-output', f'the job succeeded without {path}')
  return data


def shrink(case):
  yield from c01.shrink(case)
  for k in ('p_fs', 'setup_fn'):
    if case[k]:
      yield dict(case, **{k: 0})
