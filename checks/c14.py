"""C14: any failure inside a job fails the job; nothing partial is published."""
import builtins
import copy

import numpy as np

from vsim import beamsim
from vsim import core
from vsim import evalrun as er
from vsim import fsim
from vsim import gen
from checks import c01

EXC = ['ValueError', 'KeyError', 'IndexError', 'StopIteration', 'RuntimeError',
       'OSError', 'FileNotFoundError', 'AttributeError', 'TypeError',
       'AssertionError', 'ZeroDivisionError', 'NotImplementedError', 'EOFError',
       'TimeoutError', 'StopAsyncIteration', 'MergeError', 'PermissionError',
       'UnicodeDecodeError', 'FloatingPointError', 'ConnectionResetError',
       'RecursionError', 'BufferError', 'Custom', 'LookupError', 'ImportError',
       'OverflowError', 'Warning', 'NoIssue']
# The kinds a careless handler is most likely to swallow.
USUAL = ['KeyError', 'ValueError', 'AttributeError', 'IndexError', 'OSError',
         'FileNotFoundError', 'StopIteration', 'TypeError']
UPSTREAM = ('load_p', 'load_t', 'lazy', 'setup', 'stat', 'bin', 'weight',
            'transform', 'open', 'late_stat')
FS = ['open', 'write', 'close', 'mv', 'mv_after', 'short']


class Custom(Exception):

  def __init__(self, code, detail):  # not rebuildable from its message alone
    super().__init__(f'{code}: {detail}')


def make_exc(name):
  import xarray as xr
  msg = 'injected failure'
  if name == 'MergeError':
    return xr.MergeError(msg)
  if name == 'UnicodeDecodeError':
    return UnicodeDecodeError('utf8', b'x', 0, 1, msg)
  if name == 'Custom':
    return Custom(7, msg)
  if name == 'FileNotFoundError':
    return FileNotFoundError(2, msg, '/data')
  if name == 'NoIssue':
    return ValueError('No init times issued ' + msg)
  return getattr(builtins, name)(msg)


def setup():
  er.setup()


class Fail:
  """When and how a site fails."""

  def __init__(self, f):
    self.f = f

  def __call__(self, site, chunk=None, var=None):
    f = self.f
    if f['site'] != site or (f['var'] is not None and var is not None
                             and f['var'] != var):
      return
    if chunk is not None and f['init'] is not None:
      c = getattr(chunk, 'coords', {})
      if 'init_time' in c and f['init'] not in np.atleast_1d(
          c['init_time'].values.astype('datetime64[ns]').astype('int64')):
        return
      if 'lead_time' in c and f['lead'] is not None and f['lead'] not in (
          np.atleast_1d(c['lead_time'].values.astype(
              'timedelta64[ns]').astype('int64'))):
        return
    w = core.world()
    n = w.info.get('hits', 0)
    if f['times'] is not None and n >= f['times']:
      return
    w.info['hits'] = n + 1
    w.log(f'FAULT {site} {f["exc"]} {n + 1}')
    w.count(f'fault.{site}')
    raise make_exc(f['exc'])


class BadLoader(er.Recording):

  def __init__(self, inner, tag, fail):
    super().__init__(inner, tag)
    self.fail = fail

  def load_chunk(self, init_times, lead_times=None, reference=None):
    site = 'load_' + self.tag.lower()
    late = self.fail.f['late']
    first = None
    out = None
    if late:
      out = super().load_chunk(init_times, lead_times, reference)
      first = next(iter(out.values()))
    else:
      import xarray as xr
      lt = lead_times
      first = xr.DataArray(np.zeros((len(init_times), len(lt))), coords=dict(
          init_time=init_times, lead_time=lt), dims=['init_time', 'lead_time'])
    self.fail(site, first)
    if out is None:
      out = super().load_chunk(init_times, lead_times, reference)
    if self.tag == 'P' and self.fail.f['site'] == 'lazy':
      out = {k: lazily(v, k, self.fail) for k, v in out.items()}
    return out


def lazily(da, name, fail):
  import dask.array as dk
  data = dk.from_array(np.asarray(da.values), chunks=-1, name=False)
  coords = da.coords.to_dataset().drop_vars(
      [c for c in da.coords if c not in ('init_time', 'lead_time')])
  return da.copy(data=dk.map_blocks(
      _late, data, dtype=da.dtype, meta=np.empty((0,) * da.ndim, da.dtype),
      coords=coords, name_=name, fail=fail))


def _late(block, coords, name_, fail):
  fail('lazy', coords, name_)
  return block


class BadSetup:

  def __init__(self, fail):
    self.fail = fail

  def __call__(self):
    self.fail('setup')


class Poison:

  def __init__(self, fail):
    self.fail = fail

  def __reduce__(self):
    self.fail('poison')
    return (Poison, (self.fail,))

  def __deepcopy__(self, memo):
    return self


_CLS = {}


def classes():
  """Subclasses of the framework's own base classes."""
  if _CLS:
    return _CLS
  from weatherbenchX import binning
  from weatherbenchX import weighting
  from weatherbenchX.metrics import base
  from weatherbenchX.metrics import wrappers
  import xarray as xr

  class BadStat(base.Statistic):

    def __init__(self, inner, fail):
      self.inner = inner
      self.fail = fail

    @property
    def unique_name(self):
      return self.inner.unique_name

    def compute(self, predictions, targets):
      some = next(iter(predictions.values()))
      for v in predictions:
        self.fail('stat', some, v)
      out = dict(self.inner.compute(predictions, targets))
      for v in out:
        self.fail('late_stat', some, v)
      if self.fail.f['site'] == 'poison':
        for v in out:
          if self.fail.f['var'] in (None, v):
            p = np.empty((), object)
            p[()] = Poison(self.fail)
            out[v] = out[v].assign_coords(poison=xr.DataArray(p))
            break
      return out

  class BadMetric(base.Metric):

    def __init__(self, inner, fail):
      self.inner = inner
      self.fail = fail

    @property
    def statistics(self):
      return {k: BadStat(s, self.fail) for k, s in self.inner.statistics.items()}

    def values_from_mean_statistics(self, statistic_values):
      for k, s in statistic_values.items():
        for v in s:
          self.fail('values', None, v)
      return self.inner.values_from_mean_statistics(statistic_values)

  class BadTransform(wrappers.InputTransform):

    def __init__(self, fail):
      super().__init__('both')
      self.fail = fail

    @property
    def unique_name_suffix(self):
      return 'bad'

    def transform_fn(self, da):
      self.fail('transform', da, da.name)
      return da

  class BadBin(binning.Binning):

    def __init__(self, inner, fail):
      super().__init__(inner.bin_dim_name)
      self.inner = inner
      self.fail = fail

    def create_bin_mask(self, statistic):
      self.fail('bin', statistic, statistic.name)
      return self.inner.create_bin_mask(statistic)

  class BadWeight(weighting.Weighting):

    def __init__(self, inner, fail):
      self.inner = inner
      self.fail = fail

    def weights(self, statistic):
      self.fail('weight', statistic, statistic.name)
      return self.inner.weights(statistic)

  import sys
  for c in (BadStat, BadMetric, BadTransform, BadBin, BadWeight):
    c.__qualname__ = c.__name__
    c.__module__ = __name__
    setattr(sys.modules[__name__], c.__name__, c)
    _CLS[c.__name__] = c
  return _CLS


def make(rng, tier, index):
  while True:
    case = c01.gen_case(rng, tier)
    d = case['data']
    if rng.random() < 0.7:
      case['chunks'] = [rng.choice([1, 1, 2]), rng.choice([1, 2, None])]
    if er.n_chunks(case) <= (8 if tier == 'quick' else 20):
      break
  case['mode'] = rng.choice(['beam'] * 3 + ['direct'])
  site = rng.choice(['load_p', 'load_t', 'lazy', 'setup', 'stat', 'late_stat',
                     'transform', 'bin', 'weight', 'values', 'values', 'open',
                     'write', 'write', 'poison', 'stage'])
  agg = case['agg']
  if site == 'bin' and not agg['bins']:
    agg['bins'] = ['regions']
  if site == 'weight' and not agg['weights']:
    agg['weights'] = ['area']
  if site in ('bin', 'weight'):
    agg.update(gen.fit_agg(agg, case['metrics']))
    if gen.loud_nan(d, agg, case['metrics']):
      d['nan'] = []
    if not agg['bins' if site == 'bin' else 'weights']:
      site = 'stat'
  if site == 'transform':
    case['metrics'] = [m for m in case['metrics'] if m in SIMPLE] or ['RMSE']
  if case['mode'] == 'direct' and site in ('setup', 'write', 'stage', 'poison'):
    case['mode'] = 'beam'
  init, lead = gen.times_of(d)
  i = rng.randrange(len(init))
  j = rng.randrange(len(lead))
  case['fail'] = dict(
      site=site, exc=rng.choice(rng.choice([EXC, USUAL])), late=rng.choice([0, 1]),
      var=rng.choice([None, rng.choice(d['vars'])]),
      init=rng.choice([None, int(init[i].astype('datetime64[ns]').astype('int64'))]),
      lead=rng.choice([None, int(lead[j].astype('timedelta64[ns]').astype('int64'))]),
      times=rng.choice([None, None, None, 1, 2, 3]), fs=rng.choice(FS),
      which=rng.randrange(8), stage=rng.randrange(12), nth=rng.randrange(3))
  case['old'] = rng.choice([0, 1])
  p = er.gen_plan(rng)
  if rng.random() < .3:
    p.update(p_crash=.03, p_dup=.05, max_faults=4)
  case['plan'] = p
  return case


SIMPLE = {'Error', 'AbsoluteError', 'SquaredError', 'RMSE', 'PredictionPassthrough',
          'TargetPassthrough'}


def broken(case, fail):
  """Metrics and aggregator with the failing part in place."""
  c = classes()
  d, f = case['data'], fail.f
  metrics = gen.make_metrics(case['metrics'], d)
  agg = gen.make_agg(case['agg'], d)
  site = f['site']
  names = sorted(metrics)
  k = names[f['which'] % len(names)]
  if site in ('stat', 'late_stat', 'values', 'poison'):
    metrics = {n: c['BadMetric'](m, fail) if n == k else m
               for n, m in metrics.items()}
  if site == 'transform':
    from weatherbenchX.metrics import wrappers
    metrics = {n: wrappers.WrappedMetric(m, [c['BadTransform'](fail)])
               if n == k else m for n, m in metrics.items()}
  if site == 'bin':
    b = list(agg.bin_by)
    i = f['which'] % len(b)
    b[i] = c['BadBin'](b[i], fail)
    agg.bin_by = b
  if site == 'weight':
    b = list(agg.weigh_by)
    i = f['which'] % len(b)
    b[i] = c['BadWeight'](b[i], fail)
    agg.weigh_by = b
  return metrics, agg


class DeadStage(beamsim.SimRunner):
  """One step of the pipeline fails on every attempt (or on the first ones)."""

  def __init__(self, w, plan, fail, on_step=None):
    super().__init__(w, plan, on_step)
    self.fail = fail

  def _execute(self, b, h):
    f = self.fail.f
    hit = f['site'] == 'stage' and (
        b.stage.index % self.n_stages == f['stage'] % self.n_stages)
    if hit and not f['late']:
      self.fail('stage')
    out = super()._execute(b, h)
    if hit:
      self.fail('stage')
    return out


def execute(case, ch, st):
  from weatherbenchX import aggregation
  np.seterr(all='ignore')
  case = copy.deepcopy(case)
  d = case['data']
  exp = c01.expected(case)
  if not len(exp[1]):
    return
  f = case['fail']
  fail = Fail(f)
  nan_mask = case['agg']['masked']
  clash = gen.clashing(case['metrics'], d)
  with core.World(ch) as w:
    store = fsim.Storage(w)
    fsim.set_storage(store)
    old = {}
    if case['old']:
      old = {'/out/metrics.nc': b'previous metrics' * 9,
             '/out/state.nc': b'previous state' * 7}
      for k, v in old.items():
        store.put(k, v)
    pl, tl = er.loaders(case, nan_mask=nan_mask)
    if f['site'] == 'open':
      from weatherbenchX.data_loaders import xarray_loaders as xl
      bad = (xl.PredictionsFromXarray if f['which'] % 2 else
             xl.TargetsFromXarray)(path='sim:///nowhere/data.zarr',
                                   variables=d['vars'])
      if f['which'] % 2:
        pl = bad
      else:
        tl = bad
    pl, tl = BadLoader(pl, 'P', fail), BadLoader(tl, 'T', fail)
    metrics, agg = broken(case, fail)
    if case['mode'] == 'direct':
      direct(w, case, ch, pl, tl, metrics, agg, exp)
      every_exception(w, case, pl, tl, metrics, agg, fail)
    else:
      job(w, case, store, old, pl, tl, metrics, agg, exp, fail, clash)
    w.count('site.' + f['site'])
    if w.info.get('hits'):
      w.count('exc.' + f['exc'])
  st.absorb(w)
  st.nontrivial = any(k.startswith('fault.') for k in st.counters)


def job(w, case, store, old, pl, tl, metrics, agg, exp, fail, clash):
  from weatherbenchX import aggregation
  f = fail.f
  site = f['site']
  if site == 'write':
    store.p_fault = 1.0
    store.kinds = (f['fs'],)
    if f['times'] is not None:
      store.max_faults = f['times']
    store.errors = (type(make_exc(f['exc'])),) if f['exc'] in (
        'ValueError', 'RuntimeError', 'KeyError', 'TypeError') else (OSError,)
    if store.errors != (OSError,):
      store.errors = (store.errors[0], OSError)
  r = DeadStage(w, beamsim.Plan(**case['plan']), fail)
  failed = None
  try:
    er.run_job(w, case, None, pl, tl, metrics, agg,
               state=None if clash else er.STATE,
               setup_fn=BadSetup(fail) if site == 'setup' else None, runner=r)
  except beamsim.JobFailed as e:
    failed = e
  r.drain_zombies()
  hits = w.info.get('hits', 0)
  if site == 'write':
    hits = store.faulted_ops
  if site == 'open':
    hits = 99
  content = {p: store.content(p) for p in ('/out/metrics.nc', '/out/state.nc')}
  paths = ['/out/metrics.nc'] + ([] if clash else ['/out/state.nc'])
  if failed is None:
    w.count('probe.job_done')
    if hits and f['times'] is None and site not in ('write', 'setup', 'stage'):
      raise core.Violation('error-swallowed', f'the job succeeded although '
                           f'{site} always fails with {f["exc"]}')
    if site == 'setup' and hits and f['times'] is None:
      raise core.Violation('error-swallowed', 'the job succeeded although '
                           f'setup_fn always fails with {f["exc"]}')
    if site == 'stage' and hits and f['times'] is None:
      raise core.Violation('error-swallowed', 'the job succeeded although one '
                           'step always failed')
    if site == 'write' and hits and f['times'] is None and f['fs'] not in (
        'short', 'mv_after'):
      raise core.Violation('error-swallowed', 'the job succeeded although every '
                           f'{f["fs"]} of its output fails')
    if hits:
      w.count('probe.recovered')
    for p in paths:
      complete(case, p, content[p], exp, clash)
    return
  w.count('probe.job_failed')
  # Not every metric accepts lazy data, and object labels cannot be stored.
  if not hits and site not in ('poison', 'lazy'):
    raise core.Violation('job-failed', f'nothing failed but the job did: {failed}')
  if f['times'] is not None and hits < 4 and site not in ('poison', 'lazy'):
    raise core.Violation('job-failed', f'{hits} failures, all retried, but the '
                         f'job failed: {failed}')
  for p in ('/out/metrics.nc', '/out/state.nc'):
    if content[p] == old.get(p):
      continue
    if site in UPSTREAM:
      raise core.Violation('published', f'{p} was written by a job whose {site} '
                           'step failed')
    if site == 'values' and p == '/out/metrics.nc':
      raise core.Violation('published', f'{p} was written although a metric '
                           'could not be computed')
    if site == 'write' and f['fs'] in ('open', 'write', 'close', 'mv') and (
        f['times'] is None):
      raise core.Violation('published', f'{p} was written although every '
                           f'{f["fs"]} failed')
    w.count('probe.complete_output_of_failed_job')
    complete(case, p, content[p], exp, clash)


def complete(case, path, data, exp, clash):
  from weatherbenchX import aggregation
  if data is None:
    raise core.Violation('no-output', f'the job succeeded without {path}')
  try:
    ds = er.load_nc(data)
  except Exception as e:  # pylint: disable=broad-except
    raise core.Violation('torn', f'{path} cannot be read: {e}') from e
  ds = ds.drop_vars('poison', errors='ignore')
  c2 = dict(case)
  if case['fail']['site'] == 'transform':
    # The wrapper keeps its statistics apart under another name.
    if path.endswith('state.nc'):
      return
  if path.endswith('metrics.nc'):
    c01.compare(c2, None, ds, exp)
  else:
    s = aggregation.AggregationState.from_dataset(ds)
    state = exp[0]
    for part in ('sum_weights', 'sum_weighted_statistics'):
      r = er.tree_diff(er.nonempty(getattr(s, part)),
                       er.nonempty(getattr(state, part)), path=part,
                       **gen.tol(case['metrics'], case['data']))
      if r:
        raise core.Violation('state-differs', r)


def direct(w, case, ch, pl, tl, metrics, agg, exp):
  """Without a runner: the exception reaches the caller."""
  from weatherbenchX import aggregation
  from weatherbenchX.metrics import base as mb
  f = case['fail']
  done = None
  try:
    states = []
    for it, lt in ch.shuffled(list(er.make_times(case))):
      tc = tl.load_chunk(it, lt)
      pc = pl.load_chunk(it, lt, tc)
      if f['late']:
        stats = mb.compute_unique_statistics_for_all_metrics(metrics, pc, tc)
        states.append(agg.aggregate_statistics(stats))
      else:
        stats = {}
        for k, s in mb.generate_unique_statistics_for_all_metrics(
            metrics, pc, tc):
          stats[k] = s
        states.append(agg.aggregate_statistics(stats))
      w.log('chunk')
    done = aggregation.AggregationState.sum(states).metric_values(metrics)
    done.load()
  except core.Violation:
    raise
  except Exception as e:  # pylint: disable=broad-except
    if not w.info.get('hits') and f['site'] not in ('open', 'lazy'):
      raise
    w.count('probe.direct_raised')
    return
  if w.info.get('hits') or f['site'] == 'open':
    raise core.Violation('error-swallowed', f'no exception although {f["site"]} '
                         f'failed with {f["exc"]}')
  c01.compare(case, None, er.normal_times(done), exp)


def every_exception(w, case, pl, tl, metrics, agg, fail):
  """The same site fails with every kind of exception, on one chunk."""
  from weatherbenchX.metrics import base as mb
  f = fail.f
  if f['site'] in ('open', 'lazy'):
    return
  it, lt = next(iter(er.make_times(case)))
  for e in EXC:
    f.update(exc=e, init=None, lead=None, times=None)
    w.info['hits'] = 0
    raised = None
    try:
      tc = tl.load_chunk(it, lt)
      pc = pl.load_chunk(it, lt, tc)
      stats = mb.compute_unique_statistics_for_all_metrics(metrics, pc, tc)
      agg.aggregate_statistics(stats).metric_values(metrics).load()
    except core.Violation:
      raise
    except Exception as x:  # pylint: disable=broad-except
      raised = x
    if w.info['hits'] and raised is None:
      raise core.Violation('error-swallowed', f'no exception although '
                           f'{f["site"]} failed with {e}')
    if w.info['hits']:
      w.count('probe.every_exception')


def shrink(case):
  f = case['fail']
  d = case['data']
  for c in er.shrink_eval(case):
    if f['site'] in ('bin', 'weight') and not c['agg'][
        'bins' if f['site'] == 'bin' else 'weights']:
      continue
    if c['data']['n_init'] != d['n_init'] or c['data']['n_lead'] != d['n_lead']:
      c['fail'] = dict(f, init=None, lead=None)
    yield c
  for c in ([1, 1], [None, None]):
    if case['chunks'] != c:
      yield dict(case, chunks=c)
  if case['old']:
    yield dict(case, old=0)
  for k in ('init', 'lead', 'var', 'times'):
    if f[k] is not None:
      yield dict(case, fail=dict(f, **{k: None}))
