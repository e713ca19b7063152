"""C12: the same inputs and seed give the same results in every process.

The same job runs in three processes with different string hash seeds, prior
work, clocks, time zones and generator states; all observations must be equal.
"""
import contextlib
import copy
import gc
import io
import os
import random
import time

import numpy as np
import xarray as xr

from vsim import beamsim
from vsim import core
from vsim import evalrun as er
from vsim import fsim
from vsim import gen
from vsim import hashproc
from vsim import obsim
from vsim import zsim
from checks import c01
from checks import c08
from checks import c10
from checks import c11
from checks import c15

HASHES = (0, 77, 4242)
_SERVERS = {}


def setup():
  er.setup()
  c15.setup()
  for h in HASHES:
    _SERVERS[h] = hashproc.Server('checks.c12', h)


def setup_job():
  """In the server processes."""
  c08.setup()
  c10.setup()
  c11.setup()
  c15.setup()


# ------------------------------------------------------------- generation ----
KINDS = ('eval', 'eval', 'eval', 'boot', 'boot', 'load', 'sparse', 'combine',
         'beam', 'interp')
NAMES = ['geopotential', '2m_temperature', 'wind', 'q', 'msl', 'precip', 'tcc',
         'humidity', 'a', 'B', 'zz', 'toa', 't', 'u', 'v', 'sst', 'ws_10m']


def make_eval(rng, tier):
  while True:
    case = c01.gen_case(rng, tier)
    if not set(case['metrics']) & gen.NEED_UV and not gen.clashing(
        case['metrics'], case['data']):
      break
  d = case['data']
  k = rng.choice([1, 2, 3, 4, 6])
  d['vars'] = rng.sample(NAMES, k)
  d['nan'] = [dict(n, var=rng.choice(d['vars'])) for n in d.get('nan', [])]
  return case


def make_interp(rng):
  return dict(
      seed=rng.randrange(10**6), how=rng.choice(
          ['linear', 'nearest', 'altitude', 'dims', 'fixed', 'multi', 'nbhd']),
      extra=rng.sample(['init_time', 'realization', 'level', 'b', 'member'],
                       rng.randint(0, 4)),
      n=rng.choice([0, 0, 1, 3]), wrap=rng.choice([0, 1]),
      vars=rng.sample(NAMES + ['10m_wind_speed'], rng.randint(1, 3)))


def make(rng, tier, index):
  kind = rng.choice(KINDS)
  case = dict(kind=kind, seed=rng.randrange(2**31))
  if kind in ('eval', 'beam'):
    case['case'] = make_eval(rng, tier)
    if kind == 'beam':
      case['case']['plan'] = er.gen_plan(rng)
      if er.n_chunks(case['case']) > 8:
        case['case']['chunks'] = [None, None]
    case['suffix'] = rng.choice(['', 'x', '_7', ' b', 'Q'])
  elif kind == 'boot':
    c = c11.make(rng, tier, index)
    c.update(cut=None, threads=False, rare=False)
    if c['cmp'] == 'misaligned':
      c['cmp'] = 'other'
    c['replicates'] = min(c['replicates'], 80)
    case['case'] = c
  elif kind == 'load':
    case['case'] = c08.make(rng, tier, index)
    while case['case']['cfg']['src'] == 'nc':
      case['case'] = c08.make(rng, tier, index)
  elif kind == 'interp':
    case['case'] = make_interp(rng)
  elif kind == 'sparse':
    case['case'] = c10.make(rng, tier, index)
    case['case']['src'] = 'obs'
  else:
    case['case'] = c15.make(rng, tier, index)
    case['case'].update(faults={}, out_fault=0, cut=None, appears=False)
  # What the processes have done before, and where they run.
  case['procs'] = []
  for j in range(3):
    hist = []
    if j:
      hist = [rng.choice(['eval', 'boot', 'draws', 'cut', 'gc', 'reuse',
                          'reuse', 'strings', 'settings'])
              for _ in range(rng.choice([0, 1, 2, 3]))]
    case['procs'].append(dict(
        hash=HASHES[j], history=hist, seed=rng.randrange(2**31),
        clock=0 if not j else rng.choice([0, 3.2e7, -9e8, 86399]),
        tz='UTC' if not j else rng.choice(['UTC', 'Asia/Tokyo', 'EST5EDT',
                                           'XYZ-13:45']),
        cut=rng.choice([3, 20, 80, 200, 600, 1500]),
        twice=bool(j) and rng.random() < .4))
  return case


# ------------------------------------------------------------------- jobs ----
def see(da):
  """Everything about an array that a user can rely on."""
  labels = {}
  for d in da.dims:
    if d in da.coords:
      labels[d] = arr(da[d].values)
  extra = {c: (tuple(v.dims), arr(v.values)) for c, v in sorted(da.coords.items())
           if c not in da.dims}
  return dict(dims=tuple(da.dims), labels=labels, coords=extra,
              values=np.array(da.values))


def arr(x):
  x = np.asarray(x)
  if x.dtype.kind in 'OUST':
    return [str(y) for y in x.ravel()]
  if x.dtype.kind in 'mM':
    return x.astype(x.dtype.kind + '8[ns]').astype('int64').ravel().tolist()
  return x.ravel().tolist()


def see_tree(tree):
  return [(k, [(v, see(x)) for v, x in t.items()]) for k, t in tree.items()]


class Eval:

  def __init__(self, case, spec):
    self.spec = spec
    d = spec['data']
    s = case['suffix']
    self.metrics = {m + s: x for m, x in gen.make_metrics(
        spec['metrics'], d).items()}
    self.agg = gen.make_agg(spec['agg'], d)
    self.mask = spec['agg']['masked']

  def run(self, spec=None):
    spec = spec or self.spec
    d = spec['data']
    init, lead = gen.times_of(d)
    pl, tl = er.loaders(spec, nan_mask=self.mask)
    from weatherbenchX import aggregation
    from weatherbenchX.metrics import base
    tc = tl.load_chunk(init, lead)
    pc = pl.load_chunk(init, lead, tc)
    stats = base.compute_unique_statistics_for_all_metrics(self.metrics, pc, tc)
    state = self.agg.aggregate_statistics(stats)
    values = state.metric_values(self.metrics)
    out = dict(order=[(k, list(map(str, v))) for k, v in stats.items()],
               values=[(k, see(v)) for k, v in values.items()],
               state=see_tree(state.sum_weighted_statistics),
               weights=see_tree(state.sum_weights))
    direct = aggregation.compute_metric_values_for_single_chunk(
        self.metrics, self.agg, pc, tc)
    out['direct'] = [(k, see(v)) for k, v in direct.items()]
    try:
      saved = state.to_dataset()
    except Exception:  # pylint: disable=broad-except
      saved = None  # documented limits of the format
    if saved is not None:
      out['saved'] = [(k, see(v)) for k, v in saved.items()]
    return out

  def other(self, seed):
    spec = copy.deepcopy(self.spec)
    spec['data']['seed'] = seed
    d = spec['data']
    if seed % 3 == 0:
      d['n_init'] = max(1, d['n_init'] - 1)
    self.run(spec)


class Beam(Eval):

  def run(self, spec=None):
    spec = spec or self.spec
    ch = core.Chooser(spec['data']['seed'])
    with core.World(ch) as w:
      store = fsim.Storage(w)
      fsim.set_storage(store)
      er.run_job(w, spec, beamsim.Plan(**spec['plan']), metrics=self.metrics,
                 agg=self.agg, nan_mask=self.mask)
      ds = er.load_nc(store.content('/out/metrics.nc'))
      st = er.load_nc(store.content('/out/state.nc'))
    # The order of Beam's output elements is the runner's.
    return dict(values=sorted((k, see(v)) for k, v in ds.items()),
                state=sorted((k, see(v)) for k, v in st.items()))


class Boot:

  def __init__(self, case, spec):
    self.spec = spec
    self.seed = case['seed']
    names = spec['metrics']
    self.metrics = {m + 'x': c11.metric(m) for m in names}
    self.base = self.metrics
    all_m = {m: c11.metric(m) for m in names}
    if spec['cmp'] == 'metric':
      self.base = {m + 'x': c11.metric(c11.OTHER[m]) for m in names}
      for m in names:
        all_m.setdefault(c11.OTHER[m], c11.metric(c11.OTHER[m]))
    self.all = all_m

  def run(self, spec=None):
    spec = spec or self.spec
    state = c11.state_of(spec, self.all, 0)
    base = None
    if spec['cmp'] == 'self':
      base = state
    elif spec['cmp']:
      base = c11.state_of(spec, self.all, 1)
    np.random.seed(self.seed)
    b = c11.build(spec, self.metrics, state, self.base, base)
    draw_after = np.random.rand()
    out = dict(order=[(k, sorted(map(str, v)) if spec['method'] == 'iid' else
                       list(map(str, v)))
                      for k, v in b.resampled_values.items()],
               after=draw_after, resampled=see_tree(b.resampled_values),
               point=see_tree(b.point_estimates()),
               p=see_tree(b.p_values()), se=see_tree(b.standard_error_estimates()))
    lo, hi = b.confidence_intervals()
    out['ci'] = see_tree(lo), see_tree(hi)
    return out

  def other(self, seed):
    self.run(dict(self.spec, seed=seed))


class Load:

  def __init__(self, case, spec):
    self.spec = spec
    self.ds = c08.stored(spec)
    self.handle = None

  def reqs(self, spec):
    out = [op['req'] for op in spec['ops'] if 'req' in op]
    return out or [r for op in spec['ops'] for r in op.get('reqs', [])]

  def run(self, spec=None):
    spec = spec or self.spec
    if self.handle is None:
      ds = self.ds.chunk() if spec['cfg']['src'] == 'dask' else self.ds
      self.handle = c08.build(spec, dict(ds=ds))
    ref = c08.reference_for(spec)
    out = []
    for r in self.reqs(spec)[:3]:
      it, lt = c08.request(spec['data'], r)
      got = (self.handle.load_chunk(it, lt, ref) if ref is not None
             else self.handle.load_chunk(it, lt))
      out.append([(str(k), see(v)) for k, v in got.items()])
    return out

  def other(self, seed):
    spec = copy.deepcopy(self.spec)
    for r in self.reqs(spec)[::-1][:2]:
      it, lt = c08.request(spec['data'], r)
      ref = c08.reference_for(spec)
      h = self.handle or c08.build(spec, dict(ds=self.ds))
      h.load_chunk(it, lt, ref) if ref is not None else h.load_chunk(it, lt)


class Sparse:

  def __init__(self, case, spec):
    self.spec = spec
    self.h = None

  def run(self, spec=None):
    spec = spec or self.spec
    with core.World(core.Chooser(1)) as w:
      obsim.set_store(obsim.ObStore(w, c10.content_of(spec)[0]))
      if self.h is None:
        self.h = c10.build(spec, 'obs:///obs')
      out = []
      reqs = [op['req'] for op in spec['ops'] if 'req' in op][:3]
      for r in reqs:
        got = c10.load(spec, self.h, r)
        out.append([(str(k), see(v)) for k, v in got.items()])
    return out

  def other(self, seed):
    self.run()


class Combine:

  def __init__(self, case, spec):
    self.spec = spec

  def run(self, spec=None):
    spec = spec or self.spec
    with core.World(core.Chooser(1)) as w:
      mode = spec['mode']
      disk = {f'/in/{n}.nc': c15.content(f, mode)
              for n, f in spec['files'].items()}
      obsim.set_store(obsim.ObStore(w, disk.get))
      zs = zsim.ZStore(w)
      zsim.set_store(zs)
      c15.run_script(spec, mode, 'zim://out')
      got = xr.open_zarr(f'zim://out/{mode}.zarr').load()
      return [(str(k), see(v)) for k, v in got.items()], [
          (str(k), see(v)) for k, v in got.coords.items()]

  def other(self, seed):
    spec = copy.deepcopy(self.spec)
    for f in spec['files'].values():
      f['seed'] += 1
    self.run(spec)


class Interp:
  """Interpolation of blocks with several other dimensions to a few points."""

  def __init__(self, case, spec):
    from weatherbenchX import interpolations as ip
    self.spec = spec
    lat, lon = np.arange(-90., 91., 45.), np.arange(0., 360., 60.)
    rs = np.random.RandomState(spec['seed'])
    elev = xr.DataArray(rs.randint(0, 400, (5, 6)) / 4., dims=[
        'latitude', 'longitude'], coords=dict(latitude=lat, longitude=lon))
    how = spec['how']
    wrap = bool(spec['wrap'])
    dims = ['latitude', 'longitude'] if how == 'dims' else None
    self.ip = dict(
        altitude=lambda: ip.GridToSparseWithAltitudeAdjustment(
            'linear', elev, dims=['longitude', 'latitude']),
        fixed=lambda: ip.InterpolateToFixedCoords(
            'linear', dict(latitude=np.array([10., -20.]),
                           longitude=np.array([5., 100., 200.])), wrap),
        multi=lambda: ip.MultipleInterpolation(
            [ip.CropToBox(-60, 60, 0, 200),
             ip.InterpolateToReferenceCoords('nearest', dims)]),
        nbhd=lambda: ip.NeighborhoodThresholdProbabilities([1, 3], [0., 1.])).get(
            how, lambda: ip.InterpolateToReferenceCoords(
                'nearest' if how == 'nearest' else 'linear', dims, wrap))()
    self.lat, self.lon = lat, lon

  def run(self, spec=None):
    spec = spec or self.spec
    rs = np.random.RandomState(spec['seed'] + 1)
    size = dict(init_time=2, realization=2, level=3, b=1, member=2)
    dims = list(spec['extra'])
    coords = {d: np.arange(size[d]) for d in dims}
    at = min(len(dims), spec['seed'] % 5)
    dims = dims[:at] + ['latitude', 'longitude'] + dims[at:]
    shape = [size.get(d) or dict(latitude=5, longitude=6)[d] for d in dims]
    n = spec['n']
    ref = xr.DataArray(
        rs.rand(n), dims='index', coords=dict(
            index=np.arange(n), latitude=('index', rs.randint(-50, 50, n) + 0.),
            longitude=('index', rs.randint(0, 190, n) + 0.),
            elevation=('index', rs.randint(0, 1900, n) + 0.)))
    p = xr.Dataset({v: (dims, rs.randint(-12, 13, shape) / 4.)
                    for v in spec['vars']},
                   dict(coords, latitude=self.lat, longitude=self.lon))
    t = {v: ref.rename(v) for v in spec['vars']}
    out = self.ip.interpolate(dict(p.items()), t)
    return [(str(k), see(v)) for k, v in out.items()]

  def other(self, seed):
    self.run(dict(self.spec, seed=seed, n=seed % 4))


CLASSES = dict(interp=Interp, eval=Eval, beam=Beam, boot=Boot, load=Load, sparse=Sparse,
               combine=Combine)


def job(msg):
  """One process: environment, history, then the job itself."""
  case, p = msg['case'], msg['proc']
  np.seterr(all='ignore')
  os.environ['TZ'] = p['tz']
  time.tzset()
  if p['clock']:
    real = time.time, time.time_ns
    time.time = lambda: real[0]() + p['clock']
    time.time_ns = lambda: real[1]() + int(p['clock'] * 1e9)
  np.random.seed(p['seed'] % 2**32)
  random.seed(p['seed'])
  cls = CLASSES[case['kind']]
  spec = case['case']
  target = cls(case, spec)
  rng = random.Random(p['seed'])
  for h in p['history']:
    history(h, case, p, target, rng)
  out = target.run()
  if p['twice']:
    again = target.run()
    d = first_difference(again, out)
    if d:
      raise core.Violation('second-time', f'the same job again in the same '
                           f'process: {d}')
  return out


def history(h, case, p, target, rng):
  if h == 'eval':
    c = make_eval(rng, 'quick')
    Eval(dict(suffix=''), c).run()
  elif h == 'boot':
    c = c11.make(rng, 'quick', 0)
    c.update(method=rng.choice(['iid', 'cluster']), cmp=None, L=None)
    if c['method'] == 'cluster' and 'ids' not in c:
      c['method'] = 'iid'
    Boot(dict(seed=p['seed']), c).run()
  elif h == 'draws':
    np.random.rand(rng.randrange(1, 2000))
    random.random()
  elif h == 'gc':
    gc.collect()
  elif h == 'strings':
    x = [str(rng.random()) for _ in range(2000)]
    globals()['_keep'] = set(x)
  elif h == 'settings':
    np.random.seed(rng.randrange(2**31))
    np.set_printoptions(precision=2)
    xr.set_options(display_width=40)
  elif h == 'cut':
    exc = KeyboardInterrupt('injected')
    cut = core.interrupt_at_line(p['cut'], exc)
    try:
      with cut:
        CLASSES[case['kind']](case, case['case']).run()
    except BaseException as e:  # pylint: disable=broad-except
      if e is not exc and exc not in (e.__cause__, e.__context__):
        raise
  elif h == 'reuse':
    target.other(p['seed'] % 1000003)


# ------------------------------------------------------------- comparison ----
def first_difference(a, b, path=''):
  if type(a) is not type(b):
    return f'{path}: {type(a).__name__} instead of {type(b).__name__}'
  if isinstance(a, dict):
    if list(a) != list(b):
      return f'{path}: {list(a)} instead of {list(b)}'
    for k in a:
      d = first_difference(a[k], b[k], f'{path}/{k}')
      if d:
        return d
    return None
  if isinstance(a, np.ndarray):
    if a.shape != b.shape:
      return f'{path}: shape {a.shape} instead of {b.shape}'
    if a.dtype != b.dtype and a.dtype.kind not in 'OUST':
      return f'{path}: {a.dtype} instead of {b.dtype}'
    if a.dtype.kind in 'fc':
      tol = 1e-4 if a.dtype == np.float32 else 1e-9
      scale = np.nanmax(np.abs(np.where(np.isfinite(b), b, 0))) if b.size else 0
      if not np.allclose(a, b, tol, tol * max(scale, 1e-3), equal_nan=True):
        i = np.argwhere(~np.isclose(a, b, tol, tol * max(scale, 1e-3),
                                    equal_nan=True))[0]
        return (f'{path}: {a[tuple(i)]!r} instead of {b[tuple(i)]!r} at '
                f'{i.tolist()}')
      return None
    if a.dtype.kind in 'OUST':
      return None if arr(a) == arr(b) else f'{path}: {arr(a)} instead of {arr(b)}'
    return None if np.array_equal(a, b) else f'{path}: values differ'
  if isinstance(a, (list, tuple)):
    if len(a) != len(b):
      return f'{path}: {len(a)} instead of {len(b)} entries'
    for i, (x, y) in enumerate(zip(a, b)):
      name = x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i
      d = first_difference(x, y, f'{path}/{name}')
      if d:
        return d
    return None
  if isinstance(a, float):
    return None if a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(
        abs(a), abs(b)) else f'{path}: {a!r} instead of {b!r}'
  return None if a == b else f'{path}: {a!r} instead of {b!r}'


def execute(case, ch, st):
  case = copy.deepcopy(case)
  with core.World(ch) as w:
    answers = []
    for p in case['procs']:
      _SERVERS[p['hash']].send(dict(case=case, proc=p))
    for p in case['procs']:
      answers.append(_SERVERS[p['hash']].receive())
    for p, (kind, x) in zip(case['procs'], answers):
      if kind == 'hang':
        raise core.Violation('hang', f'process {p} did not finish')
      if kind == 'error':
        raise core.HarnessError(x)
    bad = [(p, x) for p, (kind, x) in zip(case['procs'], answers)
           if kind == 'violation']
    if bad:
      p, (kind, msg) = bad[0]
      raise core.Violation(kind, f'{msg} (process with hash seed {p["hash"]}, '
                           f'after {p["history"]})')
    first = answers[0][1]
    for p, (_, x) in list(zip(case['procs'], answers))[1:]:
      d = first_difference(x, first)
      if d:
        raise core.Violation(
            'process-dependent', f'{case["kind"]}: hash seed {p["hash"]}, clock '
            f'{p["clock"]:+g} s, {p["tz"]}, after {p["history"]}: {d}')
      for h in p['history']:
        w.count('fault.history_' + h)
      if p['clock']:
        w.count('fault.clock_shift')
      if p['tz'] != 'UTC':
        w.count('fault.time_zone')
      w.count('probe.twice', int(p['twice']))
    w.count('kind.' + case['kind'])
    w.count('probe.processes', 3)
    w.log(digest(first))
  st.absorb(w)
  st.nontrivial = True


def digest(x):
  import hashlib
  h = hashlib.sha256()

  def add(x):
    if isinstance(x, dict):
      for k, v in x.items():
        h.update(str(k).encode())
        add(v)
    elif isinstance(x, (list, tuple)):
      for v in x:
        add(v)
    elif isinstance(x, np.ndarray):
      if x.dtype.kind in 'f':
        h.update(np.round(np.nan_to_num(x.astype(float)), 4).tobytes())
      else:
        h.update(repr(arr(x)).encode())
    else:
      h.update(repr(x).encode())

  add(x)
  return h.hexdigest()


def shrink(case):
  for i, p in enumerate(case['procs']):
    for k, v in (('history', []), ('clock', 0), ('tz', 'UTC'), ('twice', False)):
      if p[k] != v:
        c = copy.deepcopy(case)
        c['procs'][i][k] = v
        yield c
    for j in range(len(p['history'])):
      if len(p['history']) > 1:
        c = copy.deepcopy(case)
        del c['procs'][i]['history'][j]
        yield c
  if len(case['procs']) > 2:
    for i in (2, 1):
      c = copy.deepcopy(case)
      del c['procs'][i]
      yield c
  if case['kind'] == 'eval':
    for m in case['case']['metrics']:
      if len(case['case']['metrics']) > 1:
        c = copy.deepcopy(case)
        c['case']['metrics'] = [m]
        yield c
