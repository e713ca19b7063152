"""C11: bootstrap resamples are faithful, paired and never hide missing data.

All compositions of the original number of draws are enumerated for a small
number of units, so every single replicate can be judged: it must equal the
metric of one genuine resample, the same on every statistic, variable, weight
and side of a comparison that enter the value.
"""
import copy
import functools
import itertools

import numpy as np
import xarray as xr

from vsim import core
from vsim import evalrun as er
from vsim import gen

R_DIM = 'composition__'
METHODS = ('iid', 'cluster', 'stationary')
METRICS = ('MAE', 'MSE', 'Bias', 'RMSE', 'CSI', 'F1', 'ETS', 'FB', 'ACC',
           'Activity', 'Prod', 'Cross', 'WindRMSE', 'SubRMSE', 'USSR', 'CRPS',
           'ERMV', 'HSS')


def setup():
  er.setup()
  from weatherbenchX.statistical_inference import bootstrap  # pylint: disable=unused-import
  install_rng_seam()


# ------------------------------------------------------------------ seams ----
class Rng:
  """State of the random generator seam; `mode` selects rare draws."""
  mode = ''
  ch = None
  count = 0
  seed = 0


def install_rng_seam():
  if getattr(np.random, '_vsim', None):
    return
  real = {k: getattr(np.random, k) for k in
          ('multinomial', 'randint', 'rand', 'random', 'random_sample',
           'geometric', 'choice', 'integers') if hasattr(np.random, k)}
  real_default_rng = np.random.default_rng

  def multinomial(n, pvals, size=None):
    out = real['multinomial'](n, pvals, size)
    if Rng.mode and np.ndim(n) == 0 and np.ndim(pvals) == 1:
      p = np.asarray(pvals)
      flat = out.reshape(-1, p.size)
      ok = np.where(p > 0)[0]
      for i in range(flat.shape[0]):
        kind = Rng.ch.pick(4)
        if kind == 1:  # every draw hits one unit
          flat[i] = 0
          flat[i, ok[Rng.ch.pick(ok.size)]] = n
        elif kind == 2:  # first and last unit only
          flat[i] = 0
          k = Rng.ch.pick(int(n) + 1)
          flat[i, ok[0]] += k
          flat[i, ok[-1]] += n - k
        elif kind == 3 and n == ok.size:
          flat[i] = 0
          flat[i, ok] = 1
      out = flat.reshape(out.shape)
      Rng.count += 1
    return out

  def randint(low, high=None, size=None, dtype=int):
    out = real['randint'](low, high, size, dtype)
    if Rng.mode and np.ndim(low) == 0 and np.ndim(high or 0) == 0:
      a, b = (0, low) if high is None else (low, high)
      kind = Rng.ch.pick(4)
      if kind and size is not None:
        if kind == 3:
          out[np.arange(out.size).reshape(out.shape) % 2 == 0] = b - 1
        else:
          out[...] = a if kind == 1 else b - 1
        Rng.count += 1
    return out

  def uniform(name):
    def f(*a, **k):
      out = real[name](*a, **k)
      if Rng.mode and isinstance(out, np.ndarray):
        kind = Rng.ch.pick(4)
        if kind:
          out[...] = [None, 0.0, np.nextafter(1.0, 0.0), .5][kind]
          Rng.count += 1
      return out
    return f

  def default_rng(seed=None):
    if seed is None:
      Rng.seed += 1
      seed = Rng.seed
    return real_default_rng(seed)

  np.random.multinomial = multinomial
  np.random.randint = randint
  for k in ('rand', 'random', 'random_sample'):
    setattr(np.random, k, uniform(k))
  np.random.default_rng = default_rng
  np.random._vsim = True  # pylint: disable=protected-access


# ------------------------------------------------------------- generation ----
def make(rng, tier, index):
  case = dict(kind='c11', method=rng.choice(METHODS))
  method = case['method']
  case['seed'] = rng.randrange(2**31)
  k = rng.choice([1, 2, 3, 4, 5, 6, 6]) if tier == 'quick' else rng.choice(
      [1, 2, 3, 4, 5, 6, 7, 8])
  case['L'] = None
  if method == 'stationary':
    case['L'] = rng.choice([1, 1.0, 2.0, 3, 4.5, 10.0, 1e9, 'auto'])
    if case['L'] == 'auto':
      k = 8
    case['rounding'] = rng.choice([30.0, 30.0, 5.0, None])
    case['cache'] = rng.choice([50, 50, 1, 0])
  case['n'] = k
  if method == 'cluster':
    n_pts = k + rng.randrange(0, 7)
    ids = list(range(k)) + [rng.randrange(k) for _ in range(n_pts - k)]
    if rng.random() < .7:
      rng.shuffle(ids)
    else:
      ids.sort()
    case['ids'] = ids
    case['id_type'] = rng.choice(['int', 'str', 'datetime', 'float', 'bool'])
    if case['id_type'] == 'bool' and k > 2:
      case['id_type'] = 'int'
    case['id_is_dim'] = rng.random() < .3
  case['unit'] = rng.choice(['init_time', 'init_time', 'lead_time', 'valid_time',
                             'index'])
  case['unit_order'] = rng.choice(['sorted', 'sorted', 'shuffled', 'reversed'])
  case['metrics'] = rng.sample(METRICS, rng.choice([1, 1, 2, 3]))
  case['extra'] = rng.choice([[], [], ['lead_time'], ['region'],
                              ['region', 'lead_time']])
  case['extra'] = [x for x in case['extra'] if x != case['unit']]
  case['extra_sizes'] = {x: rng.choice([1, 2, 3]) for x in case['extra']}
  case['extra_labels'] = rng.random() < .7
  case['extra_sorted'] = rng.random() < .6
  case['u_extra'] = rng.random() < .7  # u has all extra dims
  case['weights'] = rng.choice(['ones', 'ones', 'random', 'random', 'zero', 'big'])
  case['nan'] = rng.choice([0, 0, 0, 1, 2])
  case['replicates'] = rng.choice([1, 2, 3, 40, 80, 80, 160, 300])
  case['cmp'] = rng.choice([None, None, 'self', 'other', 'other', 'metric',
                            'misaligned'])
  case['how'] = rng.choice(['difference', 'difference', 'ratio'])
  case['mis'] = rng.choice(['permuted', 'shifted', 'shorter', 'one_changed'])
  case['rare'] = rng.random() < .3
  case['history'] = rng.choice([0, 0, 1, 1000])
  case['cut'] = rng.choice([None, None, rng.choice([1, 5, 20, 50, 120, 300, 700])])
  case['exc'] = rng.choice(['MemoryError', 'KeyboardInterrupt', 'ValueError'])
  case['threads'] = rng.random() < .2
  return case


# ------------------------------------------------------------------ states ---
def user_metrics():
  from weatherbenchX.metrics import base
  from weatherbenchX.metrics import deterministic as m

  class Prod(base.PerVariableMetric):
    """Nonlinear in two statistics."""

    @property
    def statistics(self):
      return {'a': m.AbsoluteError(), 'b': m.SquaredError()}

    def _values_from_mean_statistics_per_variable(self, statistic_values):
      return statistic_values['a'] * 2.0 + 1.0 / statistic_values['b']

  class Cross(base.Metric):
    """A result that mixes variables."""

    @property
    def statistics(self):
      return {'a': m.AbsoluteError(), 'b': m.Error()}

    def values_from_mean_statistics(self, statistic_values):
      a, b = statistic_values['a'], statistic_values['b']
      return {'mix': a['t'] * a['u'] - b['t'], 'both': a['t'] / b['u']}

  return Prod(), Cross()


@functools.lru_cache(None)
def metric(name):
  from weatherbenchX.metrics import categorical as c
  from weatherbenchX.metrics import deterministic as m
  from weatherbenchX.metrics import probabilistic as p
  from weatherbenchX.metrics import wrappers as w
  prod, cross = user_metrics()
  clim = xr.Dataset({v: (('dayofyear', 'hour'), np.zeros((366, 1)))
                     for v in ('t', 'u')})
  return dict(
      MAE=m.AbsoluteError(), MSE=m.SquaredError(), Bias=m.Error(),
      RMSE=m.RMSE(), CSI=c.CSI(), F1=c.F1Score(), ETS=c.ETS(),
      FB=c.FrequencyBias(), HSS=c.HSS(), ACC=m.ACC(clim),
      Activity=m.PredictionActivity(clim), Prod=prod, Cross=cross,
      WindRMSE=m.WindVectorRMSE(['u'], ['v'], ['wind']),
      SubRMSE=w.SubselectVariables(m.RMSE(), ['u']),
      USSR=p.UnbiasedSpreadSkillRatio('number'), CRPS=p.CRPSEnsemble('number'),
      ERMV=p.EnsembleRootMeanVariance('number'))[name]


# A different metric with the same output variables, for baseline_metrics.
OTHER = dict(MAE='RMSE', MSE='MAE', Bias='MAE', RMSE='MAE', CSI='F1', F1='ETS',
             ETS='CSI', FB='CSI', HSS='F1', ACC='Activity', Activity='ACC',
             Prod='RMSE', Cross='Cross', WindRMSE='WindRMSE', SubRMSE='SubRMSE',
             USSR='ERMV', CRPS='RMSE', ERMV='USSR')


def variables(name):
  return dict(WindRMSE=['wind'], SubRMSE=['u']).get(name, ['t', 'u'])


def units_coord(case, n):
  unit = case['unit']
  rs = np.random.RandomState(case['seed'] % 1000)
  if unit == 'lead_time':
    x = np.arange(1, n + 1) * np.timedelta64(6, 'h').astype('timedelta64[ns]')
  elif unit == 'index':
    x = np.arange(n) * 10
  else:
    x = np.datetime64('2020-01-01', 'ns') + np.arange(n) * np.timedelta64(
        12, 'h').astype('timedelta64[ns]')
  if case['unit_order'] == 'reversed':
    x = x[::-1]
  elif case['unit_order'] == 'shuffled':
    x = rs.permutation(x)
  return x


def cluster_labels(case):
  ids = np.array(case['ids'])
  # Labels whose order differs from the order of the ids.
  return dict(int=np.array([5, 3, 9, -1, 4, 2, 77, 8]),
              float=np.array([.5, 3.5, -9, 1, 4, 2, 77, 8]),
              bool=np.array([True, False]),
              str=np.array(['KSFO', 'b', 'EDDM', 'aa', 'a', 'z', 'ZZ', '0']),
              datetime=np.datetime64('2020-01-01', 'ns') + np.array(
                  [5, 3, 9, 1, 4, 2, 77, 8]) * np.timedelta64(1, 'D'),
              )[case['id_type']][ids]


def n_points(case):
  return len(case['ids']) if case['method'] == 'cluster' else case['n']


def membership(case):
  """Matrix (n_draw_units, n_points): how a unit's draw counts the points."""
  n = n_points(case)
  if case['method'] != 'cluster':
    return np.eye(n)
  return (np.arange(case['n'])[:, None] == np.array(case['ids'])[None]) * 1.0


def statistics_of(metrics):
  out = {}
  for name, mt in metrics.items():
    for stat in mt.statistics.values():
      out.setdefault(stat.unique_name, [])
      for v in variables(name):
        if v not in out[stat.unique_name]:
          out[stat.unique_name].append(v)
  return out


def state_of(case, metrics, which=0):
  """An AggregationState with random content, and its bare arrays."""
  from weatherbenchX import aggregation
  rs = np.random.RandomState((case['seed'] * 7 + which * 13 + 1) % 2**32)
  n = n_points(case)
  unit = case['unit']
  coords = {unit: units_coord(case, n)}
  if case['method'] == 'cluster':
    if case['id_is_dim']:
      coords = {unit: cluster_labels(case)}
    else:
      coords['cluster'] = (unit, cluster_labels(case))
  extra = {}
  for x in case['extra']:
    s = case['extra_sizes'][x]
    if x == 'lead_time':
      lab = np.arange(s) * np.timedelta64(6, 'h').astype('timedelta64[ns]')
    else:
      lab = np.array(['nh', 'tropics', 'all'])[:s]
    extra[x] = lab if case['extra_sorted'] else lab[::-1]
  sws, sw = {}, {}
  stats = statistics_of(metrics)
  holes = []
  for _ in range(case['nan']):
    s = sorted(stats)[rs.randint(len(stats))]
    holes.append((s, stats[s][rs.randint(len(stats[s]))], rs.randint(n)))
  wrs = np.random.RandomState(case['seed'] % 2**32)
  shared_w = {}
  for s in sorted(stats):
    sws[s], sw[s] = {}, {}
    for v in stats[s]:
      dims = [unit] + list(case['extra'])
      if v == 'u' and not case['u_extra']:
        dims = dims[:-1] if len(dims) > 1 else dims
      sizes = [n if d == unit else case['extra_sizes'][d] for d in dims]
      val = rs.uniform(.5, 2.5, sizes)
      kw = case['weights']
      key = tuple(dims)
      if kw == 'ones':
        w = np.ones(sizes)
      elif kw == 'zero':
        # The same points are missing from all statistics of a variable.
        if (key, v) not in shared_w:
          x = wrs.uniform(.5, 2, sizes)
          x[wrs.rand(*sizes) < .25] = 0
          shared_w[key, v] = x
        w = shared_w[key, v]
      else:
        w = rs.uniform(.2, 3, sizes) * (1e4 if kw == 'big' else 1)
      c = {d: extra[d] for d in dims[1:]} if case['extra_labels'] else {}
      ws = val * w
      for hs, hv, hi in holes:
        if (hs, hv) == (s, v):
          at = [hi] + [rs.randint(z) for z in sizes[1:]]
          ws[tuple(at)] = np.nan
      o = rs.permutation(len(dims))
      sws[s][v] = xr.DataArray(ws, dims=dims, coords={**coords, **c}).transpose(
          *[dims[i] for i in o])
      o = rs.permutation(len(dims))
      sw[s][v] = xr.DataArray(w, dims=dims, coords={**coords, **c}).transpose(
          *[dims[i] for i in o])
  return aggregation.AggregationState(sws, sw)


# ------------------------------------------------------------------ oracle ---
@functools.lru_cache(None)
def compositions(n):
  """All count vectors of n draws from n units, shape (C(2n-1, n), n)."""
  out = []
  for bars in itertools.combinations(range(2 * n - 1), n - 1):
    prev, row = -1, []
    for b in bars:
      row.append(b - prev - 1)
      prev = b
    row.append(2 * n - 2 - prev)
    out.append(row)
  return np.array(out)


@functools.lru_cache(None)
def reference_counts(method, n, block):
  """Own samples of the resampling distribution: counts (20000, n)."""
  rs = np.random.RandomState(12345)
  m = 20000
  if method != 'stationary':
    idx = rs.randint(0, n, (m, n))
  else:
    idx = np.empty((m, n), int)
    idx[:, 0] = rs.randint(0, n, m)
    for j in range(1, n):
      new = rs.random_sample(m) < 1 / block
      idx[:, j] = np.where(new, rs.randint(0, n, m), (idx[:, j - 1] + 1) % n)
  out = np.zeros((m, n))
  for i in range(n):
    out[:, i] = (idx == i).sum(1)
  return out


def means(state, unit, counts):
  """{stat: {var: DataArray(R_DIM, ...)}} of the means under each count row."""
  out = {}
  for s, per_var in state.sum_weighted_statistics.items():
    out[s] = {}
    for v, ws in per_var.items():
      w = state.sum_weights[s][v]
      rest = [d for d in ws.dims if d != unit]
      a = ws.transpose(unit, *rest)
      b = w.transpose(unit, *rest)
      bad = np.isnan(a.values)
      flat = np.where(bad, 0.0, a.values).reshape(a.sizes[unit], -1)
      num = counts @ flat
      num[(counts @ bad.reshape(bad.shape[0], -1).astype(float)) > 0] = np.nan
      den = counts @ b.values.reshape(b.sizes[unit], -1)
      x = (num / den).reshape((counts.shape[0],) + tuple(a.shape[1:]))
      out[s][v] = xr.DataArray(
          x, dims=[R_DIM] + rest,
          coords={d: ws[d] for d in rest if d in ws.coords})
  return out


def metric_values(mt, m):
  return mt.values_from_mean_statistics(
      {k: {v: x for v, x in m[s.unique_name].items()}
       for k, s in mt.statistics.items()})


def oracle(case, metrics, state, base_metrics, base_state, counts):
  unit = case['unit']
  ms = means(state, unit, counts)
  mb = means(base_state, unit, counts) if base_state is not None else None
  out = {}
  for name, mt in metrics.items():
    a = metric_values(mt, ms)
    if mb is not None:
      b = metric_values(base_metrics[name], mb)
      a = {v: combine(case['how'], a[v], b[v]) for v in a if v in b}
    out[name] = a
  return out


def combine(how, a, b):
  return a - b if how == 'difference' else a / b


def ratio(a, b):
  return {k: a[k] / b[k] for k in a if k in b}


# --------------------------------------------------------------- execution ---
def build(case, metrics, state, base_metrics, base_state):
  from weatherbenchX.statistical_inference import bootstrap as b
  kw = dict(n_replicates=case['replicates'])
  if case['method'] == 'iid':
    cls = b.IIDBootstrap
    kw['experimental_unit_dim'] = case['unit']
  elif case['method'] == 'cluster':
    cls = b.ClusterBootstrap
    kw['experimental_unit_coord'] = (
        case['unit'] if case['id_is_dim'] else 'cluster')
  else:
    cls = b.StationaryBootstrap
    kw['experimental_unit_dim'] = case['unit']
    if case['L'] != 'auto':
      kw['mean_block_length'] = case['L']
    kw['block_length_rounding_resolution'] = case['rounding']
    kw['stationary_bootstrap_indices_cache_size'] = case['cache']
  if base_state is None:
    return cls(metrics, state, **kw)
  if case['how'] == 'ratio':
    kw['comparison'] = ratio
  return cls.for_baseline_comparison(
      metrics, state, base_state,
      None if base_metrics is metrics else base_metrics, **kw)


def snap_state(s):
  return [(k, gen.snap(t[k])) for t in (s.sum_weighted_statistics, s.sum_weights)
          for k in sorted(t)]


def has_nan(case, state, name, metrics):
  return any(np.isnan(x.values).any() for s in metrics[name].statistics.values()
             for x in state.sum_weighted_statistics[s.unique_name].values())


def aligned(a, like, what):
  """`a` with the dims (and label order) of `like`."""
  if set(a.dims) != set(like.dims):
    raise core.Violation('dims', f'{what}: dims {a.dims} instead of {like.dims}')
  a = a.transpose(*like.dims)
  for d in like.dims:
    if d in like.coords:
      if d not in a.coords:
        raise core.Violation('labels', f'{what}: no labels on {d}')
      if sorted(a[d].values.tolist()) != sorted(like[d].values.tolist()):
        raise core.Violation('labels', f'{what}: {d} is {a[d].values}')
      order = [a[d].values.tolist().index(x) for x in like[d].values.tolist()]
      a = a.isel({d: order})
    elif a.sizes[d] != like.sizes[d]:
      raise core.Violation('labels', f'{what}: {d} has size {a.sizes[d]}')
  return a


def judge(w, case, b, metrics, state, base_metrics, base_state, what):
  n = case['n']
  member = membership(case)
  comp = compositions(n)
  exp = oracle(case, metrics, state, base_metrics, base_state, comp @ member)
  full = oracle(case, metrics, state, base_metrics, base_state,
                np.ones((1, n)) @ member)
  res = b.resampled_values
  pts = b.point_estimates()
  se = b.standard_error_estimates()
  cis = {a: b.confidence_intervals(a) for a in (.05, .5)}
  pv = {}
  loose = case['method'] == 'stationary'
  checked = 0
  for name in metrics:
    if set(res[name]) != set(exp[name]) or set(pts[name]) != set(exp[name]):
      raise core.Violation('variables', f'{what} {name}: {sorted(res[name])} '
                           f'instead of {sorted(exp[name])}')
    for v, e in exp[name].items():
      tag = f'{what} {name} {v}'
      r = res[name][v]
      new = [d for d in r.dims if d not in e.dims]
      if len(new) != 1 or r.sizes[new[0]] != case['replicates']:
        raise core.Violation('replicates', f'{tag}: dims {dict(r.sizes)} for '
                             f'{case["replicates"]} replicates')
      rd = new[0]
      f = full[name][v].isel({R_DIM: 0}, drop=True)
      p = aligned(pts[name][v], f, tag + ' point estimate')
      d = gen.diff(p, f, 3e-4 if loose else 1e-8, 3e-4 if loose else 1e-10,
                   tag + ' point estimate')
      if d:
        raise core.Violation('point-estimate', d)
      r = aligned(r.rename({rd: R_DIM}), e.isel({R_DIM: 0}).expand_dims(
          {R_DIM: case['replicates']}).drop_vars(R_DIM, errors='ignore'), tag)
      r = r.values.reshape(case['replicates'], -1)
      ee = e.transpose(R_DIM, *[x for x in e.dims if x != R_DIM]).values
      ee = ee.reshape(ee.shape[0], -1)
      for j in range(r.shape[1]):
        checked += judge_scalar(w, case, r[:, j], ee[:, j], comp,
                                f'{tag} slice {j}')
      # Intervals, errors and p-values follow from the replicates.
      flat = lambda x, t: aligned(x.drop_vars('quantile', errors='ignore'), f,  # pylint: disable=cell-var-from-loop
                                  t).values.reshape(-1)
      s = flat(se[name][v], tag + ' standard error')
      with np.errstate(all='ignore'):
        import warnings
        with warnings.catch_warnings():
          warnings.simplefilter('ignore')
          ws = np.nanstd(r, axis=0, ddof=1)
          bounds = {a: np.nanquantile(r, [a / 2, 1 - a / 2], axis=0)
                    for a in cis}
      scale = np.nanmax(np.abs(r)) if np.isfinite(r).any() else 1
      ok = lambda a, b: np.allclose(a, b, 1e-6, 1e-9 * max(1, scale),  # pylint: disable=cell-var-from-loop
                                    equal_nan=True)
      if not ok(s, ws):
        raise core.Violation('standard-error', f'{tag}: {s} instead of {ws}')
      for a, (lo, hi) in cis.items():
        lo, hi = (flat(x[name][v], tag + ' interval') for x in (lo, hi))
        if (lo > hi).any():
          raise core.Violation('interval', f'{tag}: lower {lo} above upper {hi}')
        if not (ok(lo, bounds[a][0]) and ok(hi, bounds[a][1])):
          raise core.Violation('interval', f'{tag}: {lo}, {hi} instead of '
                               f'{bounds[a].tolist()} at alpha {a}')
      # p-values invert the intervals.
      for k in range(3):
        q = w.ch.pick(1000) / 999 * 1.2 - .1
        fin = r[np.isfinite(r)]
        if not fin.size:
          break
        null = float(fin.min() + q * (fin.max() - fin.min()))
        if k == 2:
          null = 0.0
        if null not in pv:
          pv[null] = b.p_values(null), b.significance_tests(null, .05)
        pp = flat(pv[null][0][name][v], tag + ' p-value')
        sig = flat(pv[null][1][name][v], tag + ' significance')
        if not (((pp >= 0) & (pp <= 1 + 1e-12)) | np.isnan(pp)).all():
          raise core.Violation('p-value', f'{tag}: {pp}')
        for a in cis:
          lo, hi = bounds[a]
          with np.errstate(invalid='ignore'):
            eps = 1e-6 * max(1e-12, scale)
            near = (np.abs(null - lo) < eps) | (np.abs(null - hi) < eps)
            outside = (null < lo) | (null > hi)
            wrong = ~near & ~np.isnan(lo) & ~np.isnan(pp) & (
                (pp <= a) != outside) & (np.isfinite(r).sum(0) > 1)
          if wrong.any():
            raise core.Violation(
                'p-value', f'{tag}: p {pp[wrong]} at {null} but the interval at '
                f'{a} is {lo[wrong]}, {hi[wrong]}')
          if a == .05 and (sig.astype(bool) != (pp <= a)).any():
            raise core.Violation('significance', f'{tag}: {sig} for p {pp}')
      if case['cmp'] == 'self':
        z = 0.0 if case['how'] == 'difference' else 1.0
        if not np.array_equal(r[~np.isnan(r)], np.full((~np.isnan(r)).sum(), z)):
          raise core.Violation('self-comparison', f'{tag}: {np.unique(r)[:5]}')
        pp = flat(b.p_values(z)[name][v], tag + ' p-value')
        # One finite replicate has no empirical distribution to invert.
        pp = pp[(~np.isnan(r)).sum(0) > 1]
        if (pp[~np.isnan(pp)] < 1).any():
          raise core.Violation('self-comparison', f'{tag}: p {pp}')
        w.count('probe.self_comparison')
  return checked


def judge_scalar(w, case, r, e, comp, tag):
  """Replicates `r` of one metric value against all compositions `e`."""
  fin_e = np.isfinite(e)
  # Some composition is undefined: missing unit or no weight in the sample.
  may_nan = not fin_e.all() or case['nan'] > 0
  bad = np.isnan(r)
  if bad.any() and not may_nan:
    raise core.Violation('nan-replicate', f'{tag}: NaN without missing data')
  if not fin_e.any():
    if np.isfinite(r).any():
      raise core.Violation('missing-hidden', f'{tag}: finite replicate although '
                           'every resample is undefined')
    return r.size
  vals = e[fin_e]
  order = np.argsort(vals, kind='stable')
  sv = vals[order]
  which = np.where(fin_e)[0][order]
  scale = np.abs(sv).max()
  tol = 1e-9 * np.maximum(1e-3, scale)
  found = []
  unique = True
  for x in r:
    if np.isnan(x):
      found.append(-1)
      unique = False
      continue
    if np.isinf(x):
      if not np.isinf(e).any():
        raise core.Violation('inf-replicate', f'{tag}: {x}')
      found.append(-1)
      unique = False
      continue
    lo = np.searchsorted(sv, x - tol - 1e-9 * abs(x), 'left')
    hi = np.searchsorted(sv, x + tol + 1e-9 * abs(x), 'right')
    if hi == lo:
      i = min(np.searchsorted(sv, x), sv.size - 1)
      raise core.Violation(
          'not-a-resample', f'{tag}: replicate {x!r} is not the metric of any '
          f'resample of {comp.shape[1]} units (nearest {sv[i]!r} for counts '
          f'{comp[which[i]].tolist()})')
    if hi - lo > 1:
      unique = False
    found.append(which[lo])
  if bad.any():
    w.count('probe.nan_replicates')
  if case['rare'] or not unique:
    return r.size
  counts = comp[np.array(found)]
  n = comp.shape[1]
  if case['L'] != 'auto':
    distribution(w, case, counts, n, tag)
  w.count('probe.draws_identified', len(found))
  return r.size


def distribution(w, case, counts, n, tag):
  """The draws follow the method: own simulation, alarms beyond ~1e-11."""
  import scipy.stats
  if n < 2:
    return
  ref = reference_counts(case['method'], n, case['L'])
  m = counts.shape[0]
  ones = (counts == 1).all(1).sum()
  if case['L'] == 1e9:
    if ones != m:
      raise core.Violation('blocks', f'{tag}: a block of length 1e9 was cut')
    return
  p = min(max((ref == 1).all(1).mean(), 1e-4), 1 - 1e-4)
  for q, tail in ((min(p * 1.1 + 2e-3, .9999), scipy.stats.binom.sf(
      ones - 1, m, min(p * 1.1 + 2e-3, .9999))),
                  (p, scipy.stats.binom.cdf(ones, m, max(p * .9 - 2e-3, 1e-9)))):
    del q
    if tail < 1e-11:
      raise core.Violation('distribution', f'{tag}: every unit exactly once in '
                           f'{ones} of {m} replicates, expected share {p:.4f}')
  if m < 40:
    return
  stats = dict(distinct=((counts > 0).sum(1), (ref > 0).sum(1)))
  for i in range(n):
    stats[f'unit {i}'] = counts[:, i], ref[:, i]
  for k, (a, b) in stats.items():
    if abs(a.mean() - b.mean()) > 7.5 * b.std() / m**.5 + .03:
      raise core.Violation(
          'distribution', f'{tag}: mean of {k} is {a.mean():.3f} over {m} '
          f'replicates, expected {b.mean():.3f}')
  if len(np.unique(counts, axis=0)) < 2:
    raise core.Violation('distribution', f'{tag}: all {m} replicates equal')
  w.count('probe.distribution_checked')


def misaligned(case, base_state):
  """The baseline with other unit labels; and whether labels can be matched."""
  key = case['unit']
  if case['method'] == 'cluster' and not case['id_is_dim']:
    key = 'cluster'
  n = n_points(case)
  rs = np.random.RandomState(case['seed'] % 9973)

  def change(x):
    if case['mis'] == 'permuted':
      return x.isel({case['unit']: np.roll(np.arange(n), 1)})
    if case['mis'] == 'shorter':
      return x.isel({case['unit']: slice(0, n - 1)})
    lab = x[key].values.copy()
    other = lab[:1] if lab.dtype.kind in 'USb' else lab.max() + (
        np.timedelta64(1, 'D') if lab.dtype.kind in 'mM' else 1)
    if lab.dtype.kind == 'b':
      lab = lab.astype(int) + 5
    elif lab.dtype.kind in 'US':
      lab = np.array(['Q' + s for s in lab])
    elif case['mis'] == 'shifted':
      lab = lab + (np.timedelta64(1, 'D') if lab.dtype.kind in 'mM' else 1000)
    else:
      lab[rs.randint(n)] = other
    return x.assign_coords({key: (case['unit'], lab)})

  from weatherbenchX import aggregation
  out = [{s: {v: change(x) for v, x in t[s].items()} for s in t}
         for t in (base_state.sum_weighted_statistics, base_state.sum_weights)]
  return aggregation.AggregationState(*out)


def execute(case, ch, st):
  np.seterr(all='ignore')
  case = copy.deepcopy(case)
  with core.World(ch) as w:
    np.random.seed(case['seed'] % 2**32)
    Rng.mode, Rng.ch, Rng.count, Rng.seed = '', ch, 0, case['seed']
    for _ in range(case['history']):
      np.random.rand()
    try:
      body(w, case, ch)
    finally:
      Rng.mode = ''
    if Rng.count:
      w.count('fault.rare_draws', Rng.count)
  st.absorb(w)
  st.nontrivial = True


def body(w, case, ch):
  metrics = {f'{m}_x': metric(m) for m in case['metrics']}
  names = {f'{m}_x': m for m in case['metrics']}

  # variables() is keyed by the plain names.
  by_stat = {}
  for k, m in metrics.items():
    by_stat[names[k]] = m
  case = dict(case)
  cmp_ = case['cmp']
  base_metrics, base_state = metrics, None
  all_m = dict(by_stat)
  if cmp_ == 'metric':
    base_metrics = {k: metric(OTHER[names[k]]) for k in metrics}
    for k in metrics:
      all_m.setdefault(OTHER[names[k]], base_metrics[k])
  state = state_of(case, all_m, 0)
  if cmp_ == 'self':
    base_state = state
  elif cmp_ is not None:
    base_state = state_of(case, all_m, 1)
  keep = snap_state(state)
  keep_b = snap_state(base_state) if base_state is not None else None
  if cmp_ == 'misaligned':
    n = n_points(case)
    if n > 1 and not (case['method'] == 'cluster' and case['mis'] == 'permuted'
                      and len(set(case['ids'])) < 2):
      check_misaligned(w, case, metrics, state, base_state)
    case['cmp'] = cmp_ = 'other'
  Rng.mode = 'rare' if case['rare'] else ''
  make_ = lambda: build(case, metrics, state, base_metrics, base_state)
  if case['cut'] is not None:
    exc = dict(MemoryError=MemoryError, KeyboardInterrupt=KeyboardInterrupt,
               ValueError=ValueError)[case['exc']]('injected')
    cut = core.interrupt_at_line(case['cut'], exc)
    try:
      with cut:
        make_()
    except BaseException as e:  # pylint: disable=broad-except
      if e is not exc and exc not in (e.__cause__, e.__context__):
        raise
    if cut.fired:
      w.count('fault.interrupted')
      w.log(f'cut {cut.where}')
  if case['threads']:
    tr = core.line_tracer(w, .6)
    tasks = [w.spawn(f't{i}', make_, tracer=tr) for i in range(2)]
    w.run_to_end()
    bs = []
    for t in tasks:
      if t.error is not None:
        raise t.error
      bs.append(t.result)
    w.count('probe.threads')
  else:
    bs = [make_()]
  Rng.mode = ''
  for i, b in enumerate(bs):
    checked = judge(w, case, b, metrics, state, base_metrics, base_state,
                    f'{case["method"]} {i}')
    w.count('probe.replicates_judged', checked)
  if snap_state(state) != keep or (
      keep_b is not None and snap_state(base_state) != keep_b):
    raise core.Violation('inputs-modified', 'the aggregation state changed')
  w.count('method.' + case['method'])
  if cmp_:
    w.count('probe.comparison')
  if case['nan']:
    w.count('probe.missing_units')
  w.log(repr([sorted(map(float, x.values.ravel()[:40])) for b in bs
              for x in b.resampled_values[sorted(metrics)[0]].values()]))


def check_misaligned(w, case, metrics, state, base_state):
  other = misaligned(case, base_state)
  c2 = dict(case, cmp='other', replicates=30, rare=False)
  try:
    b = build(c2, metrics, state, metrics, other)
  except Exception:  # pylint: disable=broad-except
    w.count('probe.misaligned_refused')
    return
  if case['mis'] != 'permuted':
    raise core.Violation('mispaired', f'{case["method"]}: units with other labels '
                         f'({case["mis"]}) were paired by position')
  # Accepted: only if paired by label.
  if case['method'] == 'cluster':
    same = np.array_equal(cluster_labels(case), np.roll(cluster_labels(case), 1))
    if same:
      return
  try:
    judge(w, c2, b, metrics, state, metrics, base_state, 'permuted baseline')
  except core.Violation as e:
    raise core.Violation('mispaired', f'units in another order: {e.message}')


def shrink(case):
  for k, v in (('threads', False), ('cut', None), ('rare', False), ('history', 0),
               ('nan', 0), ('weights', 'ones'), ('unit_order', 'sorted'),
               ('extra', []), ('cmp', None)):
    if case[k] != v:
      c = copy.deepcopy(case)
      c[k] = v
      yield c
  if len(case['metrics']) > 1:
    for i in range(len(case['metrics'])):
      c = copy.deepcopy(case)
      del c['metrics'][i]
      yield c
  if case['replicates'] > 3:
    c = copy.deepcopy(case)
    c['replicates'] = 3
    yield c
