"""C06: missing or damaged input data is loud, or excluded exactly as asked."""
import copy

import numpy as np
import xarray as xr

from vsim import beamsim
from vsim import core
from vsim import evalrun as er
from vsim import fsim
from vsim import gen
from vsim import ref

KEPT = ('init_time', 'lead_time', 'latitude', 'longitude', 'level', 'number')
ALT = [-60.0, -0.4, 0.3, 1.1, 60.0]  # finite replacements that reveal dependence
# Statistics of these metrics mix neighbouring positions.
SPATIAL = {'FSS', 'FSS1'}
# Asked to leave out missing members.
SKIPPING = {'CRPSskipna'}


def setup():
  er.setup()
  import zarr  # noqa


def make(rng, tier, index):
  mode = rng.choice(['loud', 'loud', 'loud', 'mask', 'mask', 'explicit', 'skipna',
                     'absent', 'remove'])
  while True:
    style = rng.randrange(8)
    d = gen.gen_data(rng, ens=style in (3, 4, 5), level=style in (6, 7),
                     max_init=4 if tier == 'quick' else 8, max_lead=3)
    simple = rng.sample(sorted(ref.STATS), rng.randint(1, 2))
    if mode in ('explicit', 'skipna'):
      metrics = simple
      if d['n_ens']:
        continue
    else:
      metrics = gen.gen_metrics(rng, d, rng.randint(1, 3))
      if mode == 'mask' and rng.random() < .5 and not d['n_ens'] and (
          'LevelSelect' not in metrics):
        metrics = list(dict.fromkeys(metrics + simple))
    if mode == 'remove':
      # Statistics that mask by themselves or mix positions are decided by
      # their own definition.
      metrics = [m for m in metrics if m not in SPATIAL | {'SEEPS'}]
    if mode == 'mask':  # a statistic of the predictions alone has no mask
      metrics = [m for m in metrics if m not in SPATIAL | {'SEEPS', 'RawP'}]
    if metrics:
      break
  agg = gen.fit_agg(gen.gen_agg(rng, d), metrics)
  agg['masked'] = mode in ('mask', 'explicit', 'remove') or 'SEEPS' in metrics
  agg['skipna'] = mode == 'skipna' or (mode == 'mask' and rng.random() < .2)
  if mode == 'remove' and 'init_time' not in agg['reduce']:
    agg['reduce'] = agg['reduce'] + ['init_time']
  d['nan'] = []
  damage = []
  for _ in range(rng.randint(1, 3)):
    idx = {k: rng.randrange(12) for k in (
        'init_time', 'lead_time', 'valid_time', 'latitude', 'longitude', 'level',
        'number') if rng.random() < 0.75}
    damage.append({'in': rng.choice('pt'), 'var': rng.choice(d['vars']),
                   'idx': idx})
  if mode in ('mask', 'skipna', 'remove'):
    for x in damage:
      if mode == 'mask' or rng.random() < .6:
        x['in'] = 't'
  case = dict(mode=mode, data=d, metrics=metrics, agg=agg, damage=damage,
              chunks=er.gen_chunks(rng, d), plan=er.gen_plan(
                  rng, faults=rng.random() < .3),
              run=rng.choice(['beam', 'loop']), lost=rng.choice([0, 0, 1]),
              stage=rng.choice([0, 0, 1]), loudp=rng.choice([0, 0, 1]), pick=rng.randrange(1000))
  if mode == 'absent':
    case['absent'] = rng.choice(['p_init', 'p_lead', 't_time', 'p_var', 't_var'])
  if er.n_chunks(case) > 12:
    case['chunks'] = [None, 1]
  if rng.random() < .6 and d['n_init'] * d['n_lead'] <= 12:
    case['chunks'] = [1, rng.choice([1, None])]
  return case


def damaged(case, fill, specs=None):
  """(predictions, targets) with the damaged positions set to a value."""
  p, t = gen.make_data(case['data'])
  for s in (case['damage'] if specs is None else specs):
    ds = p if s['in'] == 'p' else t
    da = ds[s['var']]
    idx = tuple(s['idx'].get(dim, 0) % da.sizes[dim] if dim in s['idx'] else
                slice(None) for dim in da.dims)
    vals = da.values.copy()
    vals[idx] = fill
    ds[s['var']] = da.copy(data=vals)
  return p, t


def loaders(case, p, t, nan_mask=False):
  return er.loaders(case, p, t, nan_mask=nan_mask)


def whole(case, p, t, metrics, nan_mask=False):
  from weatherbenchX.metrics import base as mb
  init, lead = gen.times_of(case['data'])
  pl, tl = loaders(case, p, t, nan_mask)
  tc = tl.load_chunk(init, lead)
  pc = pl.load_chunk(init, lead, tc)
  s = gen.make_agg(case['agg'], case['data']).aggregate_statistics(
      mb.compute_unique_statistics_for_all_metrics(metrics, pc, tc))
  return s.metric_values(metrics), s


def through_zarr(ds, case, side):
  """Stores the data and loses the damaged pieces of it."""
  import zarr
  store = zarr.storage.MemoryStore()
  out = {}
  ds = ds.copy()
  for v in ds:
    ds[v].encoding = {}
  ds.to_zarr(store, consolidated=False, encoding={
      v: dict(chunks=(1,) * ds[v].ndim, _FillValue=np.nan) for v in ds})
  gone = 0
  for s in case['damage']:
    if s['in'] != side:
      continue
    da = ds[s['var']]
    want = [s['idx'][x] % da.sizes[x] if x in s['idx'] else None for x in da.dims]
    for key in list(store._store_dict):
      if key.startswith(f'{s["var"]}/c/'):
        pos = [int(x) for x in key.split('/')[2:]]
        if all(w is None or w == q for w, q in zip(want, pos)):
          del store._store_dict[key]
          gone += 1
  return xr.open_zarr(store, consolidated=False, chunks=None,
                      decode_timedelta=True).load(), gone


class Masking:
  """Target loader that adds an explicit mask to what a real loader returned."""

  def __init__(self, inner, case, junk=None):
    self.inner = inner
    self.case = case
    self.junk = junk

  def load_chunk(self, init_times, lead_times=None, reference=None):
    out = dict(self.inner.load_chunk(init_times, lead_times, reference))
    if self.junk is not None:  # same mask, other values under it
      for k, v in out.items():
        out[k] = v.where(v['mask'], self.junk).assign_coords(mask=v['mask'])
      return out
    for k, v in out.items():
      m = explicit_mask(self.case, k, v)
      if m is not None:
        out[k] = v.assign_coords(mask=m)
    return out


def explicit_mask(case, var, da):
  d = case['data']
  if case['pick'] % 3 == 0 and var == d['vars'][-1] and len(d['vars']) > 1:
    return None  # no mask on this variable
  lat = da['latitude']
  lon = da['longitude']
  h = (lat * 3 + lon * 7 + case['pick']) % 4
  m = h > 0
  if case['pick'] % 2:
    init = (da['init_time'].astype('datetime64[ns]').astype('int64')
            // (3600 * 10**9))
    m = m & (((init // 6 + lat.astype(int)) % 3) != 1)
  return m


def unit_mask(case, var):
  """Scalar version of the explicit mask."""
  d = case['data']
  if case['pick'] % 3 == 0 and var == d['vars'][-1] and len(d['vars']) > 1:
    return lambda p, t, u: True

  def f(p, t, u):
    if (u['latitude'] * 3 + u['longitude'] * 7 + case['pick']) % 4 <= 0:
      return False
    if case['pick'] % 2:
      if (u['init_time'] // (3600 * 10**9) // 6 + int(u['latitude'])) % 3 == 1:
        return False
    return True

  return f


def run(w, case, ch, pl, tl, metrics):
  """The evaluation in chunks; a Dataset of metric values."""
  from weatherbenchX import aggregation
  from weatherbenchX.metrics import base as mb
  d = case['data']
  late = late_dims(case)
  agg = gen.make_agg(dict(case['agg'], reduce=[
      x for x in case['agg']['reduce'] if x not in late]), d)
  if case['run'] == 'beam':
    store = fsim.Storage(w)
    fsim.set_storage(store)
    er.run_job(w, case, beamsim.Plan(**case['plan']), er.Recording(pl, 'P'),
               er.Recording(tl, 'T'), metrics, agg,
               state=er.STATE if late else None, out=None if late else er.OUT)
    if late:
      w.count('probe.two_stages')
      s = aggregation.AggregationState.from_dataset(
          er.load_nc(store.content('/out/state.nc')))
      return er.normal_times(s.sum_along_dims(late).metric_values(metrics))
    return er.load_nc(store.content('/out/metrics.nc'))
  states = []
  for it, lt in ch.shuffled(list(er.make_times(case))):
    tc = tl.load_chunk(it, lt)
    pc = pl.load_chunk(it, lt, tc)
    states.append(agg.aggregate_statistics(
        mb.compute_unique_statistics_for_all_metrics(metrics, pc, tc)))
    w.log('chunk')
  while len(states) > 1:
    k = 2 + ch.pick(len(states) - 1)
    part = [states.pop(ch.pick(len(states))) for _ in range(k)]
    states.append(aggregation.AggregationState.sum(part))
    w.log(f'sum {k}')
  if late:
    w.count('probe.two_stages')
    states = [states[0].sum_along_dims(late)]
  return er.normal_times(states[0].metric_values(metrics))


def late_dims(case):
  """Time dimensions to be reduced in a second stage."""
  if not case.get('stage') or case['mode'] == 'remove' or any(
      gen.BIN_DIM[b].split('_')[0] in ('init', 'lead', 'valid')
      for b in case['agg']['bins']):
    return []
  if case['run'] == 'beam' and gen.clashing(case['metrics'], case['data']):
    return []
  if case['agg']['masked'] and case['run'] == 'beam':
    return []  # masks that differ between variables
  return [x for x in case['agg']['reduce'] if x in ('init_time', 'lead_time')]


def touched(case):
  """Units (init, lead, position) with a missing value in any input, per var."""
  d = case['data']
  init, lead = gen.times_of(d)
  p, t = damaged(case, np.nan)
  clean = gen.make_data(d)
  out = {}
  for v in d['vars']:
    a = np.isnan(p[v]) & ~np.isnan(clean[0][v])
    b = np.isnan(t[v]) & ~np.isnan(clean[1][v])
    if 'number' in a.dims:
      a = a.any('number')
    vt = xr.DataArray(init, dims='init_time', coords={'init_time': init}) + (
        xr.DataArray(lead, dims='lead_time', coords={'lead_time': lead}))
    b = b.sel(valid_time=vt).drop_vars('valid_time')
    if 'number' in b.dims:
      b = b.any('number')
    out[v] = a.transpose(*b.dims) | b
  return out


def reach(units, da, spatial):
  """Entries of a result that any missing unit may contribute to.

  A NaN without masking may also reach other bins of the same kept entry, as
  documented, so only dimensions shared with the data are told apart.
  """
  keep = [x for x in units.dims if x in da.dims and da.sizes[x] == units.sizes[x]
          and not (spatial and x in ('latitude', 'longitude'))]
  u = er.normal_times(units.to_dataset(name='x'))['x'].any(
      [x for x in units.dims if x not in keep])
  u = u.reset_coords(drop=True)
  for x in keep:
    if x in da.coords:
      u = u.sel({x: da[x]}) if x in u.coords else u
  return u.broadcast_like(da).transpose(*da.dims)


def check_loud(w, case, ch, metrics):
  d = case['data']
  tol = gen.tol(case['metrics'], d)
  clean = gen.make_data(d)
  base, state = whole(case, *clean, metrics)
  eps = 1e-5 if tol['rtol'] > 1e-6 else 1e-11
  stable = er.stable_mask(base, state, metrics, eps)
  alts = [whole(case, *damaged(case, f), metrics)[0] for f in ALT]
  base = er.normal_times(base)
  alts = [er.normal_times(a) for a in alts]
  p, t = damaged(case, np.nan)
  if case['lost']:
    pz, gp = through_zarr(clean[0], case, 'p')
    tz, gt = through_zarr(clean[1], case, 't')
    for a, b in ((pz, p), (tz, t)):
      if gen.snap(er.normal_times(a.transpose(*b.dims))) != gen.snap(
          er.normal_times(b)):
        for v in a:
          if not np.array_equal(a[v].transpose(*b[v].dims).values, b[v].values,
                                equal_nan=True):
            raise core.HarnessError('lost storage pieces and NaN differ')
    p, t = pz, tz
    w.count('fault.lost_storage_piece', gp + gt)
  else:
    w.count('fault.nan_input', len(case['damage']))
  pl, tl = loaders(case, p, t)
  try:
    got = run(w, case, ch, pl, tl, metrics)
  except beamsim.JobFailed:
    w.count('probe.failed_loudly')
    return
  if set(got) != set(base):
    raise core.Violation('variables', f'{sorted(got)} instead of {sorted(base)}')
  n_dep = 0
  units = touched(case)
  for key in base:
    b = base[key]
    m = key.split('.')[0]
    g = got[key]
    r = gen.diff(g * 0, b * 0, 1, 1, key, np.zeros(b.shape, bool))
    if r:
      raise core.Violation('coordinates', r)
    _, _, gv = gen.flat(g)
    _, _, bv = gen.flat(b)
    dims = sorted(map(str, b.dims))
    dep = np.zeros(bv.shape, bool)
    for a in alts:
      _, _, av = gen.flat(a[key])
      dep |= ~np.isclose(av, bv, rtol=1e-4, atol=1e-5, equal_nan=True)
    gv, bv = np.asarray(gv, float), np.asarray(bv, float)
    _, _, sv = gen.flat(b.copy(data=stable[key]))
    if m in SKIPPING:
      dep_must = np.zeros_like(dep)
    else:
      dep_must = dep
    n_dep += int(dep_must.sum())
    quiet = dep_must & ~np.isnan(gv)
    if quiet.any():
      i = tuple(np.argwhere(quiet)[0])
      raise core.Violation('silent', f'{key} is {gv[i]!r} at {at(b, dims, i)} '
                           'although an input value it depends on is missing')
    mine = [units[x] for x in units if key.split('.')[1:] == [x]] or list(
        units.values())
    may = sum(mine[1:], mine[0])
    _, _, may = gen.flat(reach(may > 0, b, m in SPATIAL))
    wrong = ~np.isclose(gv, bv, rtol=max(tol['rtol'], 1e-8),
                        atol=max(tol['atol'], 1e-8), equal_nan=True)
    wrong &= sv.astype(bool) & ~dep & ~may.astype(bool)
    if wrong.any():
      i = tuple(np.argwhere(wrong)[0])
      raise core.Violation('spread', f'{key} is {gv[i]!r} instead of {bv[i]!r} at '
                           f'{at(b, dims, i)}, which does not depend on the '
                           'missing data')
  if n_dep:
    w.count('probe.dependent_entries')


def at(b, dims, i):
  return {x: str(np.sort(b[x].values)[k]) if x in b.coords and
          b[x].dtype.kind != 'O' else int(k) for x, k in zip(dims, i)}


def check_mask(w, case, ch, metrics):
  """Masked NaN targets: what lies under the mask is irrelevant; the rest counts."""
  d = case['data']
  tol = gen.tol(case['metrics'], d)
  damage = [s for s in case['damage'] if s['in'] == 't']
  p, t = damaged(case, np.nan, damage)
  extra = [s for s in case['damage'] if s['in'] == 'p']
  pl, tl = loaders(case, p, t, nan_mask=True)
  got = run(w, case, ch, pl, tl, metrics)
  w.count('fault.nan_input', len(damage))
  c1 = dict(case, data=dict(d, nan=damage))
  if not case['agg']['skipna'] or True:
    er.check_reference(got, c1, lambda x, y, u: y == y, **tol)
  # Other values under the same mask.
  _, tl2 = loaders(case, p, t, nan_mask=True)
  other = run_plain(case, pl, Masking(tl2, case, junk=ALT[case['pick'] % 5]),
                    metrics)
  skip = {'WindSE', 'WindRMSE'}  # masks of several variables need not agree
  for key in got:
    if key.split('.')[0] in skip:
      continue
    a, b = got[key], other[key]
    # Ill-conditioned ratios are left to the looser tolerance.
    r = gen.diff(a, b, max(tol['rtol'], 1e-6), max(tol['atol'], 1e-6), key)
    if r:
      raise core.Violation('mask-leaks', f'{r}: value under the mask matters')
  w.count('probe.mask_checked')
  if case['loudp'] and not case['agg']['skipna']:
    # A missing forecast under an unmasked target stays loud.
    spec = {'in': 'p', 'var': d['vars'][0], 'idx': {
        'init_time': case['pick'] % d['n_init'], 'lead_time': 0, 'latitude': 0,
        'longitude': 0, 'level': 0, 'number': 0}}
    p2, _ = damaged(case, np.nan, [spec])
    init, lead = gen.times_of(d)
    tv = t[d['vars'][0]].sel(valid_time=init[spec['idx']['init_time']] + lead[0],
                             latitude=d['lat'][0], longitude=d['lon'][0])
    if 'level' in tv.dims:
      tv = tv.isel(level=0)
    if bool(np.isnan(tv)):
      return
    pl2, tl3 = loaders(case, p2, t, nan_mask=True)
    res = run_plain(case, pl2, tl3, metrics)
    c2 = dict(case, data=dict(d, nan=damage + [spec]))
    for m in case['metrics']:
      if m in ref.STATS and m != 'TargetPassthrough' and not d['n_ens']:
        key = f'{m}.{d["vars"][0]}'
        kept, want = ref.mean(m, d['vars'][0], c2['data'], case['agg'],
                              lambda x, y, u: y == y)
        have = ref.lookup(res[key], kept, case['agg'])
        for k, x in want.items():
          if x != x and have.get(k, np.nan) == have.get(k, np.nan):
            raise core.Violation('silent', f'{key} is {have[k]} at {k} although '
                                 'an unmasked forecast value is missing')
        w.count('probe.unmasked_loud')


def run_plain(case, pl, tl, metrics):
  from weatherbenchX.metrics import base as mb
  init, lead = gen.times_of(case['data'])
  tc = tl.load_chunk(init, lead)
  pc = pl.load_chunk(init, lead, tc)
  s = gen.make_agg(case['agg'], case['data']).aggregate_statistics(
      mb.compute_unique_statistics_for_all_metrics(metrics, pc, tc))
  return er.normal_times(s.metric_values(metrics))


def check_explicit(w, case, ch, metrics):
  d = case['data']
  p, t = gen.make_data(d)
  pl, tl = loaders(case, p, t)
  got = run(w, case, ch, pl, Masking(tl, case), metrics)
  tol = gen.tol(case['metrics'], d)
  for m in case['metrics']:
    for v in d['vars']:
      r = ref.check(got[f'{m}.{v}'], m, v, d, case['agg'], unit_mask(case, v),
                    **tol)
      if r:
        raise core.Violation('wrong-mask', r)
  # The mask does nothing when masking is not requested.
  c2 = copy.deepcopy(case)
  c2['agg']['masked'] = False
  got = run_plain(c2, pl, Masking(tl, case), metrics)
  for m in case['metrics']:
    for v in d['vars']:
      r = ref.check(got[f'{m}.{v}'], m, v, d, c2['agg'], None, **tol)
      if r:
        raise core.Violation('mask-without-request', r)
  w.count('probe.explicit_mask')


def check_skipna(w, case, ch, metrics):
  d = case['data']
  p, t = damaged(case, np.nan)
  pl, tl = loaders(case, p, t)
  got = run(w, case, ch, pl, tl, metrics)
  c = dict(case, data=dict(d, nan=case['damage']))
  n = er.check_reference(got, c, None, **gen.tol(case['metrics'], d))
  w.count('fault.nan_input', len(case['damage']))
  w.count('probe.skipna_checked', n)


def check_remove(w, case, ch, metrics):
  """Masking one initialisation time entirely equals leaving it out."""
  d = case['data']
  if d['n_init'] < 2:
    return
  init, lead = gen.times_of(d)
  gone = case['pick'] % d['n_init']
  p, t = gen.make_data(d)
  pl, tl = loaders(case, p, t)

  class Drop:
    def __init__(self, inner):
      self.inner = inner

    def load_chunk(self, init_times, lead_times=None, reference=None):
      out = dict(self.inner.load_chunk(init_times, lead_times, reference))
      for k, v in out.items():
        keep = (v['init_time'] != init[gone]) & (v['latitude'] < 1e9) & (
            v['longitude'] < 1e9)
        out[k] = v.assign_coords(mask=keep)
      return out

  # A statistic is masked by the inputs it is computed from, so both have one.
  got = run(w, case, ch, Drop(pl), Drop(tl), metrics)
  keep = np.delete(init, gone)
  from weatherbenchX.metrics import base as mb
  tc = tl.load_chunk(keep, lead)
  pc = pl.load_chunk(keep, lead, tc)
  s = gen.make_agg(case['agg'], d).aggregate_statistics(
      mb.compute_unique_statistics_for_all_metrics(metrics, pc, tc))
  want = s.metric_values(metrics)
  tol = gen.tol(case['metrics'], d)
  stable = er.stable_mask(want, s, metrics, 1e-5 if tol['rtol'] > 1e-6 else 1e-11)
  want = er.normal_times(want)
  for key in want:
    if key not in got:
      raise core.Violation('missing-variable', key)
    a, b = got[key], want[key]
    for x in b.dims:  # bins that only the masked time has
      if x.startswith(('init_time_', 'valid_time_')) and x in a.dims:
        a = a.sel({x: b[x]})
    r = gen.diff(a, b, what=key, keep=stable[key], **tol)
    if r:
      raise core.Violation('mask-not-exclusion', r)
  w.count('probe.masked_time_equals_removed')


def check_absent(w, case, ch, metrics):
  d = case['data']
  p, t = gen.make_data(d)
  init, lead = gen.times_of(d)
  k = case['absent']
  if k == 'p_init':
    p = p.drop_sel(init_time=init[case['pick'] % len(init)])
  elif k == 'p_lead':
    p = p.drop_sel(lead_time=lead[case['pick'] % len(lead)])
  elif k == 't_time':
    t = t.drop_sel(valid_time=init[case['pick'] % len(init)]
                   + lead[case['pick'] % len(lead)])
  else:
    v = d['vars'][case['pick'] % len(d['vars'])]
    if k == 'p_var':
      p = p.drop_vars(v)
    else:
      t = t.drop_vars(v)
  w.count(f'fault.absent_{k}')
  base, _ = whole(case, *gen.make_data(d), metrics)
  try:
    if k in ('p_var', 't_var'):
      # The variables are asked for by name, as in a real configuration.
      from weatherbenchX.data_loaders import xarray_loaders as xl
      pl = xl.PredictionsFromXarray(ds=p, variables=list(d['vars']),
                                    rename_dimensions=None)
      tl = xl.TargetsFromXarray(ds=t, variables=list(d['vars']),
                                rename_dimensions=None,
                                add_nan_mask=case['agg']['masked'])
    else:
      pl, tl = loaders(case, p, t, nan_mask=case['agg']['masked'])
    got = run(w, case, ch, pl, tl, metrics)
  except Exception as e:  # pylint: disable=broad-except
    if isinstance(e, (core.Violation, core.HarnessError)):
      raise
    w.count('probe.failed_loudly')
    return
  for key in er.normal_times(base):
    if key in got and not np.isnan(np.asarray(got[key], float)).any():
      raise core.Violation('silent', f'{key} has no NaN although {k} data are '
                           'missing')
  w.count('probe.nan_result')


def execute(case, ch, st):
  np.seterr(all='ignore')
  case = copy.deepcopy(case)
  metrics = gen.make_metrics(case['metrics'], case['data'])
  with core.World(ch) as w:
    dict(loud=check_loud, mask=check_mask, explicit=check_explicit,
         skipna=check_skipna, remove=check_remove, absent=check_absent)[
             case['mode']](w, case, ch, metrics)
    w.count('mode.' + case['mode'])
    for m in case['metrics']:
      w.count('metric.' + m)
    if case['agg']['bins']:
      w.count('probe.binned')
  st.absorb(w)
  st.nontrivial = True
  st.result(case['mode'])


def shrink(case):
  yield from er.shrink_eval(case)
  for i in range(len(case['damage'])):
    if len(case['damage']) > 1:
      c = copy.deepcopy(case)
      del c['damage'][i]
      yield c
  for c in ([1, 1], [None, None]):
    if case['chunks'] != c:
      yield dict(case, chunks=c)
  for k, v in (('run', 'loop'), ('lost', 0), ('loudp', 0)):
    if case[k] != v:
      yield dict(case, **{k: v})
