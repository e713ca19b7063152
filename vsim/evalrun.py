"""Runs real evaluation pipelines described by JSON cases in a simulated world."""
import io
import random

import numpy as np
from weatherbenchX.data_loaders import base as loader_base
import xarray as xr

from vsim import beamsim
from vsim import core
from vsim import fsim
from vsim import gen
from vsim import ref

OUT = 'sim:///out/metrics.nc'
STATE = 'sim:///out/state.nc'


def setup():
  fsim.install()
  # Imports the code under test before the first run.
  import weatherbenchX.beam_pipeline  # noqa
  import weatherbenchX.data_loaders.xarray_loaders  # noqa
  import weatherbenchX.metrics.wrappers  # noqa
  import weatherbenchX.metrics.spatial  # noqa
  import weatherbenchX.metrics.probabilistic  # noqa


def gen_plan(rng, faults=False):
  plan = dict(max_bundle=rng.choice([1, 2, 4, 8]), hosts=rng.randint(1, 4),
              slots=rng.randint(1, 3), p_fuse=rng.choice([0.0, 0.5, 0.8, 1.0]),
              p_lift=rng.choice([0.0, 0.7, 1.0]))
  if faults:
    plan.update(p_crash=rng.choice([0, .02, .05, .1]),
                p_elem_fail=rng.choice([0, .02, .05]),
                p_dup=rng.choice([0, .03, .1]), max_faults=rng.choice([2, 6, 12]))
  return plan


class Recording(loader_base.DataLoader):
  """Delegates to a real loader and records every request."""

  def __init__(self, inner, tag, yields=True):
    super().__init__()
    self.inner = inner
    self.tag = tag
    self.yields = yields

  def _load_chunk_from_source(self, init_times, lead_times=None):
    raise NotImplementedError()

  def load_chunk(self, init_times, lead_times=None, reference=None):
    w = core.world()
    if w is not None:
      lt = (f'{lead_times.start}:{lead_times.stop}'
            if isinstance(lead_times, slice) else
            ','.join(str(int(x)) for x in lead_times.astype('timedelta64[h]').astype(int)))
      it = ','.join(str(x)[:13] for x in init_times)
      w.log(f'LOAD {self.tag} [{it}] [{lt}]')
      w.notes.append((self.tag, init_times, lead_times, w.in_task()))
      if self.yields:
        w.yield_point('load')
    out = self.inner.load_chunk(init_times, lead_times, reference)
    if w is not None and self.yields:
      w.yield_point('loaded')
    return out


def loaders(case, p=None, t=None, nan_mask=False, **kw):
  """Real xarray loaders over the data of the case."""
  from weatherbenchX.data_loaders import xarray_loaders as xl
  d = case['data']
  if p is None:
    p, t = gen.make_data(d)
  if d.get('chunked'):
    p, t = p.chunk(), t.chunk()
  return (xl.PredictionsFromXarray(ds=p, rename_dimensions=None, **kw),
          xl.TargetsFromXarray(ds=t, rename_dimensions=None,
                               add_nan_mask=nan_mask, **kw))


def make_times(case):
  from weatherbenchX import time_chunks
  init, lead = gen.times_of(case['data'])
  ci, cl = case['chunks']
  return time_chunks.TimeChunks(init, lead, ci, cl)


def gen_chunks(rng, d):
  return [rng.choice([None, 0, 1, 1, 1, 2, 2, 3, d['n_init'] + 2]),
          rng.choice([None, 0, 1, 1, 1, 2, 2, 3, d['n_lead']])]


def n_chunks(case):
  d = case['data']
  ci, cl = case['chunks']
  f = lambda n, c: -(-n // c) if c else 1
  return f(d['n_init'], ci) * f(d['n_lead'], cl)


def whole(case, metrics=None, agg=None, nan_mask=False):
  """All the data in one piece through the real single-chunk function."""
  from weatherbenchX import aggregation
  d = case['data']
  init, lead = gen.times_of(d)
  pl, tl = loaders(case, nan_mask=nan_mask)
  tc = tl.load_chunk(init, lead)
  pc = pl.load_chunk(init, lead, tc)
  return aggregation.compute_metric_values_for_single_chunk(
      metrics or gen.make_metrics(case['metrics'], d),
      agg or gen.make_agg(case['agg'], d), pc, tc)


def run_job(w, case, plan, pl=None, tl=None, metrics=None, agg=None, times=None,
            out=OUT, state=STATE, setup_fn=None, nan_mask=False, runner=None):
  """Runs the real aggregated pipeline; returns the runner."""
  import apache_beam as beam
  from weatherbenchX import beam_pipeline
  d = case['data']
  if pl is None:
    pl, tl = loaders(case, nan_mask=nan_mask)
    pl, tl = Recording(pl, 'P'), Recording(tl, 'T')
  r = runner or beamsim.SimRunner(w, plan)
  with beam.Pipeline(runner=r) as root:
    beam_pipeline.define_pipeline(
        root, times or make_times(case), pl, tl,
        metrics or gen.make_metrics(case['metrics'], d),
        agg or gen.make_agg(case['agg'], d), out_path=out,
        aggregation_state_out_path=state, setup_fn=setup_fn)
  return r


def load_nc(data):
  """Dataset from netCDF bytes, decoded like a user would."""
  ds = xr.load_dataset(io.BytesIO(data), decode_timedelta=True)
  return normal_times(ds)


def normal_times(ds):
  for c in list(ds.coords):
    k = ds.coords[c].dtype.kind
    if k == 'M':
      ds = ds.assign_coords({c: ds.coords[c].astype('datetime64[ns]')})
    elif k == 'm':
      ds = ds.assign_coords({c: ds.coords[c].astype('timedelta64[ns]')})
    elif k in 'OUST':
      ds = ds.assign_coords({c: (ds.coords[c].dims,
                                 gen.text(ds.coords[c].values))})
  return ds


def check_reference(ds, case, mask=None, rtol=1e-8, atol=1e-8):
  """Compares all simple statistics in a result with the plain definition."""
  d, agg = case['data'], case['agg']
  n = 0
  for m in case['metrics']:
    if m in ref.STATS and not d.get('n_ens'):
      for v in d['vars']:
        key = f'{m}.{v}'
        if key not in ds:
          raise core.Violation('missing-variable', f'{key} not in the result')
        r = ref.check(ds[key], m, v, d, agg, mask, rtol, atol)
        if r:
          raise core.Violation('wrong-mean', r)
        n += 1
  return n


def shrink_eval(case):
  """Smaller evaluations, for the minimiser."""
  import copy
  d = case['data']
  for key, lo in (('n_init', 1), ('n_lead', 1), ('n_level', 1), ('n_ens', 2)):
    if d.get(key, 0) > lo:
      c = copy.deepcopy(case)
      c['data'][key] = max(lo, d[key] // 2)
      yield c
      c = copy.deepcopy(case)
      c['data'][key] = d[key] - 1
      yield c
  if len(case.get('metrics', [])) > 1:
    for m in case['metrics']:
      c = copy.deepcopy(case)
      c['metrics'] = [m]
      yield c
  if len(d['vars']) > 1 and not set(case.get('metrics', [])) & gen.NEED_UV:
    for v in d['vars']:
      if not any(n['var'] != v for n in d.get('nan', [])):
        c = copy.deepcopy(case)
        c['data']['vars'] = [v]
        yield c
  agg = case.get('agg')
  if agg:
    for key in ('bins', 'weights'):
      for i in range(len(agg[key])):
        c = copy.deepcopy(case)
        del c['agg'][key][i]
        yield c
  for i in range(len(d.get('nan', []))):
    c = copy.deepcopy(case)
    del c['data']['nan'][i]
    yield c
  for key in ('lat', 'lon'):
    if len(d[key]) > 2:
      c = copy.deepcopy(case)
      c['data'][key] = d[key][:2]
      yield c
  for key in ('extra', 'chunked', 'order'):
    if d.get(key):
      c = copy.deepcopy(case)
      c['data'][key] = 0 if key != 'order' else 1
      if c != case:
        yield c
  p = case.get('plan')
  if p:
    for key in ('p_crash', 'p_elem_fail', 'p_dup'):
      if p.get(key):
        c = copy.deepcopy(case)
        c['plan'][key] = 0
        yield c


# -- conditioning: which metric entries are determined by the statistics -------
def perturbed(state, eps, seed):
  """The state with every sum changed by a relative amount below eps."""
  from weatherbenchX import aggregation
  rs = np.random.RandomState(seed)

  def f(x):
    if isinstance(x, dict):
      return {k: f(v) for k, v in x.items()}
    v = np.asarray(x.values, float)
    return x.copy(data=v * (1 + eps * rs.uniform(-1, 1, size=v.shape)))

  return aggregation.AggregationState(f(state.sum_weighted_statistics),
                                      f(state.sum_weights))


def stable_mask(values, state, metrics, eps):
  """Boolean Dataset: entries that tiny changes of the sums do not move."""
  out = {k: np.ones(v.shape, bool) for k, v in values.items()}
  for s in (1, 2):
    other = perturbed(state, eps, s).metric_values(metrics)
    for k, v in values.items():
      o = other[k].transpose(*v.dims).values
      out[k] &= np.isclose(np.asarray(v.values, float), np.asarray(o, float),
                           rtol=eps * 1e3, atol=eps * 1e3, equal_nan=True)
  return out


def whole_state(case, metrics, agg, nan_mask=False):
  from weatherbenchX.metrics import base as mb
  d = case['data']
  init, lead = gen.times_of(d)
  pl, tl = loaders(case, nan_mask=nan_mask)
  tc = tl.load_chunk(init, lead)
  pc = pl.load_chunk(init, lead, tc)
  stats = mb.compute_unique_statistics_for_all_metrics(metrics, pc, tc)
  return agg.aggregate_statistics(stats)


def tree_diff(got, want, rtol, atol, path=''):
  """Compares nested dicts of DataArrays (entry order ignored)."""
  if isinstance(want, dict):
    if set(map(str, got)) != set(map(str, want)):
      return (f'{path}: entries missing {sorted(set(want) - set(got))} extra '
              f'{sorted(set(got) - set(want))}')
    for k in want:
      r = tree_diff(got[k], want[k], rtol, atol, f'{path}/{k}')
      if r:
        return r
    return None
  return gen.diff(got, want, rtol, atol, path)


def nonempty(tree):
  """Drops statistics without variables (they are not stored)."""
  return {k: v for k, v in tree.items() if not isinstance(v, dict) or v}


def compare_results(got, want, stable, rtol, atol):
  """Metric Datasets up to entry order, ignoring ill-conditioned entries."""
  if set(got) != set(want):
    return (f'variables missing {sorted(set(want) - set(got))} extra '
            f'{sorted(set(got) - set(want))}')
  for k in want:
    r = gen.diff(got[k], want[k], rtol, atol, str(k),
                 None if stable is None else stable[k])
    if r:
      return r
  return None
