"""C07: the unaggregated output holds every statistic value once, in place."""
import copy

import numpy as np
import xarray as xr

from vsim import beamsim
from vsim import core
from vsim import evalrun as er
from vsim import fsim
from vsim import gen
from vsim import ref
from vsim import zsim
from checks import c02

URL = 'zim://out/stats.zarr'


def setup():
  er.setup()
  zsim.install()
  import dask
  import zarr
  dask.config.set(scheduler='synchronous')
  zarr.config.set({'async.concurrency': 1, 'threading.max_workers': 1})


def make(rng, tier, index):
  while True:
    style = rng.randrange(8)
    d = gen.gen_data(rng, ens=style in (3, 4), level=style in (5, 6),
                     max_init=6 if tier == 'quick' else 10,
                     max_lead=4 if tier == 'quick' else 6)
    simple = sorted(ref.STATS)
    metrics = rng.sample(simple, rng.randint(1, 2))
    metrics += [m for m in gen.gen_metrics(rng, d, rng.randint(1, 2))
                if m not in metrics and m not in ('SelectMAE', 'SEEPS')]
    if 'LevelSelect' in metrics or 'LevelRename' in metrics:
      metrics = [m for m in metrics if m in ('LevelSelect', 'LevelRename')][:1]
    if gen.clashing(metrics, d):
      continue
    case = dict(data=d, metrics=metrics, chunks=er.gen_chunks(rng, d))
    if rng.random() < .6:
      case['chunks'] = [rng.choice([1, 2, 2, 3]), rng.choice([1, 2, None])]
    if er.n_chunks(case) <= (12 if tier == 'quick' else 30):
      break
  shuffle = rng.randrange(1, 1000) if rng.random() < .12 else 0
  d['nan'] = []
  if rng.random() < .3:
    d['nan'].append({'in': rng.choice('pt'), 'var': rng.choice(d['vars']), 'idx': {
        k: rng.randrange(8) for k in ('init_time', 'lead_time', 'valid_time',
                                      'latitude', 'longitude')}})
  out = {}
  if rng.random() < .6:
    out['init_time'] = rng.choice([1, 1, 2, 3, d['n_init'], 9, -1])
  if rng.random() < .5:
    out['lead_time'] = rng.choice([1, 1, 2, 3, d['n_lead'], 7, -1])
  if rng.random() < .3:
    out['latitude'] = rng.choice([1, 2])
  if rng.random() < .2:
    out['longitude'] = rng.choice([1, 2])
  case['out'] = out or rng.choice([None, {}])
  case['slice'] = 0
  if case['chunks'][1] in (None, 0) and rng.random() < .3 and d['n_lead'] > 1:
    case['slice'] = 1
  elif shuffle:
    d['shuffle'] = shuffle
  p = er.gen_plan(rng)
  if rng.random() < .7:
    p.update(p_crash=rng.choice([0, .02, .05]), p_elem_fail=rng.choice([0, .03]),
             p_dup=rng.choice([0, .05, .1]), max_faults=rng.choice([2, 6]),
             p_zombie=rng.choice([.1, .3]))
  case['plan'] = p
  case['p_put'] = rng.choice([0, 0, .1, .3])
  case['p_get'] = rng.choice([0, 0, 0, .02])
  case['zseed'] = rng.randrange(10**6)
  case['old'] = rng.choice([0, 0, 1])
  case['rerun'] = rng.choice([0, 0, 1])
  case['setup_fn'] = rng.choice([0, 0, 1])
  return case


def run(w, case, plan, runner, metrics=None, times=None):
  import apache_beam as beam
  from weatherbenchX import beam_pipeline
  d = case['data']
  pl, tl = er.loaders(case)
  cls = c02.NeedsSetup if case['setup_fn'] else er.Recording
  if case['slice']:
    tl = Interval(tl, gen.times_of(d)[1])
  pl, tl = Guard(pl, 'P', cls), Guard(tl, 'T', cls)
  with beam.Pipeline(runner=runner) as root:
    zsim.cur().on = False
    beam_pipeline.define_unaggregated_pipeline(
        root, times or make_times(case), pl, tl,
        metrics or gen.make_metrics(case['metrics'], d), URL,
        zarr_chunks=case['out'],
        setup_fn=c02.worker_setup if case['setup_fn'] else None)
    zsim.cur().on = True
  zsim.cur().on = False


class Guard(er.Recording):
  """Recording loader; outside of workers it only delegates."""

  def __init__(self, inner, tag, cls):
    super().__init__(inner, tag)
    self.worker = cls(inner, tag)

  def load_chunk(self, init_times, lead_times=None, reference=None):
    if core.world().in_task() is None:
      return self.inner.load_chunk(init_times, lead_times, reference)
    return self.worker.load_chunk(init_times, lead_times, reference)


class Interval:
  """Targets for all lead times of an interval, as an observation loader would."""

  def __init__(self, inner, lead):
    self.inner = inner
    self.lead = lead

  def load_chunk(self, init_times, lead_times=None, reference=None):
    lead = self.lead[(self.lead >= lead_times.start)
                     & (self.lead <= lead_times.stop)]
    return self.inner.load_chunk(init_times, lead, reference)


def make_times(case):
  from weatherbenchX import time_chunks
  if case['slice']:
    init, lead = gen.times_of(case['data'])
    return time_chunks.TimeChunks(init, slice(lead[0], lead[-1]),
                                  case['chunks'][0])
  return er.make_times(case)


def expected(case, metrics):
  from weatherbenchX.metrics import base as mb
  d = case['data']
  init, lead = gen.times_of(d)
  pl, tl = er.loaders(case)
  tc = tl.load_chunk(init, lead)
  pc = pl.load_chunk(init, lead, tc)
  stats = mb.compute_unique_statistics_for_all_metrics(metrics, pc, tc)
  return {f'{s}.{v}': da.compute() for s, per in stats.items()
          for v, da in per.items()}


def check_store(w, case, metrics):
  d = case['data']
  init, lead = gen.times_of(d)
  want = expected(case, metrics)
  got = xr.open_zarr(URL, decode_timedelta=True, chunks=None).load()
  got = er.normal_times(got)
  if set(got) != set(want):
    raise core.Violation('variables', f'missing {sorted(set(want) - set(got))} '
                         f'extra {sorted(set(got) - set(want))}')
  tol = gen.tol(case['metrics'], d)
  n = 0
  for k, b in want.items():
    r = gen.diff(got[k].astype(float), b.astype(float), what=k, **tol)
    if r:
      raise core.Violation('wrong-value', r)
    n += b.size
  for dim, vals, unit in (('init_time', init, 'datetime64[ns]'),
                          ('lead_time', lead, 'timedelta64[ns]')):
    if dim in got.coords and not np.array_equal(
        np.atleast_1d(got[dim].values).astype(unit), vals.astype(unit)):
      raise core.Violation('wrong-times', f'{dim} is {got[dim].values}')
  if {'init_time', 'lead_time'} <= set(got.dims):
    if 'valid_time' not in got.coords:
      raise core.Violation('valid-time', 'no valid_time')
    vt = got['valid_time'].transpose('init_time', 'lead_time').values
    if not np.array_equal(vt.astype('datetime64[ns]'),
                          (init[:, None] + lead[None]).astype('datetime64[ns]')):
      raise core.Violation('valid-time', f'{vt}')
  check_plain(case, got)
  w.count('probe.values_checked', n)


def check_plain(case, got):
  """Simple statistics straight from the data."""
  d = case['data']
  if d['n_ens']:
    return
  p, t = gen.make_data(d)
  init, lead = gen.times_of(d)
  vt = xr.DataArray(init, dims='init_time') + xr.DataArray(lead, dims='lead_time')
  for v in d['vars']:
    a = er.normal_times(p.sel(init_time=init, lead_time=lead))[v]
    b = t[v].sel(valid_time=vt)
    b = b.assign_coords(init_time=a['init_time'], lead_time=a['lead_time'])
    a, b = a.drop_vars('valid_time', errors='ignore'), b.drop_vars('valid_time')
    for name, f in (('Error', lambda a, b: a - b),
                    ('AbsoluteError', lambda a, b: abs(a - b)),
                    ('SquaredError', lambda a, b: (a - b)**2),
                    ('PredictionPassthrough', lambda a, b: a),
                    ('TargetPassthrough', lambda a, b: b)):
      for k in got:
        if name in case['metrics'] and k == f'{name}.{v}':
          if set(got[k].dims) != set(a.dims):
            raise core.Violation('wrong-value', f'{k} has dims {got[k].dims}')
          x = f(a, b).transpose(*got[k].dims)
          x = x.sel({c: got[k][c] for c in x.dims})
          if 'PassThrough' in k and np.isnan(x).any():
            continue
          y = got[k].values.astype(float)
          ok = np.isclose(y, x.values.astype(float), 1e-5, 1e-5, equal_nan=True)
          if name.endswith('Passthrough'):
            ok |= np.isnan(y) & (np.isnan(a) | np.isnan(b)).transpose(
                *got[k].dims).sel({c: got[k][c] for c in x.dims}).values
          if not ok.all():
            i = tuple(np.argwhere(~ok)[0])
            raise core.Violation('wrong-plain-value', f'{k} at {i} is {y[i]!r} '
                                 f'instead of {float(x.values[i])!r}')


def execute(case, ch, st):
  np.seterr(all='ignore')
  case = copy.deepcopy(case)
  d = case['data']
  metrics = gen.make_metrics(case['metrics'], d)
  with core.World(ch) as w:
    fsim.set_storage(fsim.Storage(w))
    zs = zsim.ZStore(w, case['zseed'], case['p_put'], case['p_get'])
    zsim.set_store(zs)
    if case['old']:
      # A previous job over other data with the same or another layout.
      c2 = copy.deepcopy(case)
      c2['data']['seed'] += 1
      c2['data']['n_init'] = max(1, d['n_init'] - ch.pick(2))
      c2['out'] = ch.choice([case['out'], None])
      c2['slice'] = 0
      zs.p_put, keep = 0, zs.p_put
      run(w, c2, None, beamsim.SimRunner(w, beamsim.Plan(plain=True)))
      zs.p_put = keep
      w.count('probe.overwritten_store')
    if case['rerun']:
      # The job dies somewhere in the middle, and is submitted again.
      r = beamsim.SimRunner(w, beamsim.Plan(**dict(
          case['plan'], max_attempts=1, p_zombie=0)))
      zs.p_put, keep = .5, zs.p_put
      try:
        run(w, case, None, r, metrics)
      except beamsim.JobFailed:
        w.count('probe.failed_then_rerun')
        r.drain_zombies()
      zs.on = False
      zs.p_put = keep
      zs.failed = 0
    r = beamsim.SimRunner(w, beamsim.Plan(**dict(case['plan'], max_attempts=100)))
    try:
      run(w, case, None, r, metrics)
    except beamsim.JobFailed as e:
      raise core.Violation('job-failed', f'every injected fault could be retried '
                           f'but the job failed: {e}') from e
    zs.on = False
    check_store(w, case, metrics)
    zs.on = True
    r.drain_zombies()
    zs.on = False
    check_store(w, case, metrics)
    w.count('probe.job_done')
    if case['slice']:
      w.count('probe.lead_interval')
    ci, cl = case['chunks']
    if case['out']:
      w.count('probe.rechunked')
    if (ci and d['n_init'] % ci) or (cl and d['n_lead'] % cl):
      w.count('probe.ragged_last_chunk')
    if w.counters.get('bundle_retries'):
      w.count('probe.retried')
    for m in case['metrics']:
      w.count('metric.' + m)
  st.absorb(w)
  st.nontrivial = True
  st.result(sorted(zs.files))
  st.result([zsim.hash_of(repr(zs.files[k])) for k in sorted(zs.files)])


def shrink(case):
  yield from er.shrink_eval(case)
  for c in ([1, 1], [None, None]):
    if case['chunks'] != c and not case['slice']:
      yield dict(case, chunks=c)
  for k in ('p_put', 'p_get', 'old', 'rerun', 'slice', 'setup_fn'):
    if case[k]:
      yield dict(case, **{k: 0})
  if case['out']:
    yield dict(case, out=None)
