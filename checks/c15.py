"""C15: combined benchmark tables contain every available result, unaltered."""
import contextlib
import copy
import functools
import importlib.util
import io
import os

import numpy as np
import xarray as xr

from vsim import core
from vsim import evalrun as er
from vsim import gen
from vsim import obsim
from vsim import zsim

REPO = os.environ.get('REPO_ROOT', '/repo')
_MOD = []

# What the names in the files mean (independent of the script).
REGIONS = {
    'global': 'Global', 'tropics': 'Tropics',
    'northern-hemisphere': 'Northern Hemisphere',
    'southern-hemisphere': 'Southern Hemisphere', 'europe': 'Europe',
    'north-america': 'North America', 'north-atlantic': 'North Atlantic',
    'north-pacific': 'North Pacific', 'east-asia': 'East Asia',
    'ausnz': 'Australia/New Zealand', 'arctic': 'Arctic',
    'antarctic': 'Antarctic', 'northern-africa': 'Northern Africa',
    'southern-africa': 'Southern Africa', 'south-america': 'South America',
    'west-asia': 'West Asia', 'south-east-asia': 'South-East Asia'}
VARIABLES = {
    'geopotential': 'Geopotential', 'temperature': 'Temperature',
    'specific_humidity': 'Specific Humidity',
    'u_component_of_wind': 'U Component of Wind',
    'v_component_of_wind': 'V Component of Wind',
    '10m_u_component_of_wind': '10m U Component of Wind',
    '10m_v_component_of_wind': '10m V Component of Wind',
    'mean_sea_level_pressure': 'Sea Level Pressure',
    '2m_temperature': '2m Temperature',
    'total_precipitation_6hr': '6h Precipitation',
    'total_precipitation_24hr': '24h Precipitation',
    'wind_speed': 'Wind Speed', '10m_wind_speed': '10m Wind Speed',
    'wind_vector': 'Wind Vector', '10m_wind_vector': '10m Wind Vector'}
METRICS = dict(
    deterministic={'rmse': 'RMSE', 'mae': 'MAE', 'bias': 'Bias',
                   'seeps': 'SEEPS', 'acc': 'ACC', 'mse': 'MSE',
                   'prediction_activity': 'Forecast Activity'},
    probabilistic={'crps': 'CRPS', 'spread_skill': 'Spread/Skill',
                   'unbiased_spread_skill': 'Unbiased Spread/Skill',
                   'unbiased_mean_rmse': 'Unbiased Mean RMSE',
                   'mean_rmse': 'Mean RMSE'})
LEVELED = ('geopotential', 'temperature', 'specific_humidity',
           'u_component_of_wind', 'v_component_of_wind', 'wind_speed',
           'wind_vector')
YEARS = ['2018', '2020', '2022']
RESOLUTIONS = ['64x32', '240x121', '1440x721']
ERRS = [0, 1, 2, 3, 5, 6]  # every injected error except "not found"


def setup():
  er.setup()
  obsim.install()
  zsim.install()
  path = REPO + '/public_benchmark/combine_results.py'
  spec = importlib.util.spec_from_file_location('combine_results', path)
  mod = importlib.util.module_from_spec(spec)
  spec.loader.exec_module(mod)
  _MOD.append(mod)


def models(mode):
  m = _MOD[0]
  return m.DETERMINISTIC_MODELS if mode == 'deterministic' else (
      m.PROBABILISTIC_MODELS)


# ------------------------------------------------------------- generation ----
def make_file(rng, mode, shared):
  f = dict(seed=rng.randrange(2**31))
  regions = rng.sample(sorted(REGIONS), rng.choice([1, 2, 3, 5]))
  if rng.random() < .5:
    regions = list(shared['regions'])
  f['regions'] = regions + [r + '_land' for r in regions if rng.random() < .4]
  if rng.random() < .3:
    rng.shuffle(f['regions'])
  f['variables'] = rng.sample(sorted(VARIABLES), rng.choice([1, 2, 3, 4])) \
      if rng.random() < .5 else list(shared['variables'])
  f['metrics'] = {v: rng.sample(sorted(METRICS[mode]), rng.choice([1, 2, 3]))
                  for v in f['variables']}
  f['levels'] = rng.choice([[500], [500, 850], [850, 500, 700], [500, 700, 850]])
  f['leads'] = rng.choice([[6, 12], [12, 24, 36], [0, 6], [24], [12, 24],
                           [36, 240]])
  f['lead_secs'] = rng.random() < .2
  f['extra_coord'] = rng.random() < .2
  f['dtype'] = rng.choice(['f4', 'f8', 'f8'])
  f['nan'] = rng.choice([0, 0, .2])
  f['order'] = rng.random() < .3
  f['vector'] = rng.random() < .5
  return f


def make(rng, tier, index):
  case = dict(kind='c15', mode=rng.choice(['deterministic', 'probabilistic',
                                           'deterministic']))
  mode = case['mode']
  shared = dict(regions=rng.sample(sorted(REGIONS), 3),
                variables=rng.sample(sorted(VARIABLES), 3))
  n = rng.choice([1, 2, 3, 4, 5, 6])
  ms = sorted(models(mode))
  few = rng.sample(ms, min(len(ms), rng.choice([1, 2, n])))
  files = {}
  for _ in range(n):
    key = (rng.choice(few) if rng.random() < .8 else rng.choice(ms),
           rng.choice(RESOLUTIONS), rng.choice(YEARS))
    files['_'.join(key)] = dict(make_file(rng, mode, shared),
                                key=list(key))
  case['files'] = files
  # Files that belong to nobody: other mode, years, resolutions, suffixes.
  case['strangers'] = rng.random() < .4
  faults = {}
  k = rng.choice([0, 0, 1, 1, 1, 2])
  for name in rng.sample(sorted(files), min(k, len(files))):
    kind = rng.choice(['zero', 'truncated', 'text', 'stat', 'open', 'open',
                       'read', 'read', 'short'])
    faults[name] = dict(kind=kind, k=rng.randrange(1, 2**20),
                        err=rng.choice(ERRS), times=rng.choice([99, 99, 1, 2]))
    if kind == 'truncated' and rng.random() < .4:
      faults[name]['k'] = -rng.randrange(1, 64)
  case['faults'] = faults
  case['out_fault'] = rng.choice([0, 0, 0, .03, .2])
  case['out_seed'] = rng.randrange(2**31)
  case['cut'] = rng.choice([None, None, None,
                            rng.choice([3, 30, 100, 300, 800, 1500])])
  case['exc'] = rng.choice(['MemoryError', 'KeyboardInterrupt', 'OSError',
                            'ValueError'])
  case['history'] = rng.choice(['', '', 'other_mode', 'stale'])
  case['appears'] = rng.random() < .15
  return case


@functools.lru_cache(64)
def _dataset(text, mode):
  import json
  f = json.loads(text)
  rs = np.random.RandomState(f['seed'])
  out = {}
  lead = np.array(f['leads']) * np.timedelta64(1, 'h').astype('timedelta64[ns]')
  coords = dict(region=f['regions'], lead_time=lead)
  names = []
  for v in f['variables']:
    for mt in f['metrics'][v]:
      names.append((mt, v))
  if f['order']:
    rs.shuffle(names)
  for mt, v in names:
    dims = ['region', 'lead_time'] + (['level'] if v in LEVELED else [])
    if 'level' in dims:
      coords['level'] = f['levels']
    if rs.rand() < .3:
      dims = dims[::-1]
    size = [len(coords[d]) for d in dims]
    x = rs.randint(-400, 400, size) / 4.0 + .125
    if f['nan']:
      x[rs.rand(*size) < f['nan']] = np.nan
    name = f'{mt}.{v}'
    # The wind vector error as the evaluation names it.
    if f['vector'] and mt == 'rmse' and v == 'wind_vector':
      name = 'vector_rmse.wind'
    if f['vector'] and mt == 'rmse' and v == '10m_wind_vector':
      name = 'vector_rmse.10m_wind'
    out[name] = xr.DataArray(x.astype(f['dtype']), dims=dims,
                             coords={d: coords[d] for d in dims})
  ds = xr.Dataset({k: v.variable for k, v in out.items()},
                  coords=coords)
  if f['lead_secs']:
    ds.coords['lead_time_secs'] = ('lead_time', rs.rand(len(lead)))
  return ds


def dataset(f, mode):
  import json
  return _dataset(json.dumps(f, sort_keys=True), mode)


@functools.lru_cache(64)
def _content(text, mode):
  ds = _dataset(text, mode)
  return bytes(ds.to_netcdf(engine='scipy'))


def content(f, mode):
  import json
  return _content(json.dumps(f, sort_keys=True), mode)


# ------------------------------------------------------------------ oracle ---
def expected(case, files):
  """{(variable, metric, model, resolution, year, region, lead_h, level): x}."""
  out = {}
  mode = case['mode']
  for f in files.values():
    model, res, year = f['key']
    ds = dataset(f, mode)
    for name, x in ds.data_vars.items():
      mt, v = name.split('.')
      if mt == 'vector_rmse':
        mt, v = 'rmse', v + '_vector'
      var = VARIABLES[v]
      met = METRICS[mode][mt]
      lab = models(mode)[model]
      for r in ds.region.values:
        reg = REGIONS[r[:-5]] + ' (Land)' if r.endswith('_land') else REGIONS[r]
        for h in f['leads']:
          for lev in (f['levels'] if 'level' in x.dims else [None]):
            sel = dict(region=list(ds.region.values).index(r),
                       lead_time=f['leads'].index(h))
            if lev is not None:
              sel['level'] = f['levels'].index(lev)
            out[var, met, lab, res, year, reg, h, lev] = x.isel(sel).item()
  return out


def check_table(case, files, url, what):
  want = expected(case, files)
  got = xr.open_zarr(url).load()
  if not files:
    raise core.Violation('made-up', f'{what}: a table without result files')
  vs = {k[0] for k in want}
  if set(got.data_vars) != vs:
    raise core.Violation('variables', f'{what}: {sorted(got.data_vars)} instead '
                         f'of {sorted(vs)}')
  seen = 0
  for var in vs:
    x = got[var]
    labels = []
    for d in x.dims:
      v = x[d].values
      if d == 'lead_time':
        v = (v / np.timedelta64(1, 'h')).tolist() if v.dtype.kind == 'm' else (
            v.tolist())
      else:
        v = v.tolist()
      if len(set(v)) != len(v):
        raise core.Violation('labels', f'{what} {var}: duplicate {d} {v}')
      labels.append(v)
    order = ['metric', 'model', 'resolution', 'year', 'region', 'lead_time',
             'level']
    pos = {d: i for i, d in enumerate(x.dims)}
    if set(pos) - set(order):
      raise core.Violation('dims', f'{what} {var}: {x.dims}')
    index = [{l: i for i, l in enumerate(v)} for v in labels]
    vals = x.values
    cover = np.zeros(vals.shape, bool)
    for key, y in want.items():
      if key[0] != var:
        continue
      at = [None] * len(pos)
      for d, lab in zip(order, key[1:]):
        if d not in pos:
          if lab is None:
            continue
          raise core.Violation('dims', f'{what} {var}: no {d}')
        if lab is None:
          raise core.Violation('dims', f'{what} {var}: unexpected {d}')
        if lab not in index[pos[d]]:
          raise core.Violation('missing-result', f'{what}: {key} is not in the '
                               f'table ({d} has {labels[pos[d]]})')
        at[pos[d]] = index[pos[d]][lab]
      g = vals[tuple(at)]
      cover[tuple(at)] = True
      seen += 1
      if not (g == y or (np.isnan(g) and np.isnan(y))):
        raise core.Violation('wrong-value', f'{what}: {key} is {g} instead of {y}')
    extra = ~cover & ~np.isnan(vals)
    if extra.any():
      i = tuple(np.argwhere(extra)[0])
      raise core.Violation('made-up', f'{what} {var}: value {vals[i]} at '
                           f'{[l[j] for l, j in zip(labels, i)]} is in no file')
  if 'lead_time_h' in got.coords:
    h = got['lead_time'].values
    h = h / np.timedelta64(1, 'h') if h.dtype.kind == 'm' else h
    if not np.array_equal(got['lead_time_h'].values, h):
      raise core.Violation('labels', f'{what}: lead_time_h '
                           f'{got["lead_time_h"].values} for {h}')
  return seen


# --------------------------------------------------------------- execution ---
class Store(obsim.ObStore):
  """Faults that may go away after a number of openings."""

  def __init__(self, w, content_):
    super().__init__(w, content_)
    self.opens = {}

  def get(self, path):
    return self.content(path)


def run_script(case, mode, out):
  mod = _MOD[0]
  mod.flags.FLAGS.unparse_flags()
  mod.flags.FLAGS(['combine_results', f'--mode={mode}', '--input_dir=obs://in',
                   f'--output_dir={out}'])
  with contextlib.redirect_stdout(io.StringIO()):
    mod.main([])


def execute(case, ch, st):
  np.seterr(all='ignore')
  case = copy.deepcopy(case)
  with core.World(ch) as w:
    body(w, case, ch)
  st.absorb(w)
  st.nontrivial = bool(case['faults'] or case['out_fault'] or case['cut']
                       or len(case['files']) > 1)


def body(w, case, ch):
  mode = case['mode']
  other = 'probabilistic' if mode == 'deterministic' else 'deterministic'
  labels = list(models(mode).values())
  if len(set(labels)) != len(labels):
    raise core.Violation('mixed-models', f'two models share a name: {labels}')
  disk = {}
  for name, f in case['files'].items():
    disk[f'/in/{name}.nc'] = content(f, mode)
  late = None
  if case['appears'] and len(case['files']) > 1:
    late = sorted(case['files'])[0]
  if case['strangers']:
    some = next(iter(disk.values()))
    for k in ('nobody_64x32_2020', 'hres_vs_era5_64x32_2019',
              'hres_vs_era5_32x16_2020', 'hres_vs_era5_64x32_2020_old'):
      disk[f'/in/{k}.nc'] = some
    w.count('probe.strangers')

  state = dict(late_from=0, calls=0)

  def read(path):
    state['calls'] += 1
    if late and path == f'/in/{late}.nc' and state['calls'] < state['late_from']:
      return None
    return disk.get(path)

  obs = Store(w, read)
  opens = {}
  plain_open = obsim.ObFS._open
  obsim.set_store(obs)
  zs = zsim.ZStore(w, case['out_seed'], case['out_fault'], 0, max_per_key=1)
  zsim.set_store(zs)

  if case['history'] == 'other_mode':
    # The same process has already combined another kind of results.
    f2 = make_file_for(other, case['out_seed'])
    k2 = f'{sorted(models(other))[0]}_64x32_2020'
    disk[f'/in/{k2}.nc'] = content(f2, other)
    run_script(case, other, 'zim://before')
    c2 = dict(case, mode=other)
    full = {k2: dict(f2, key=[sorted(models(other))[0], '64x32', '2020'])}
    check_table(c2, full, f'zim://before/{other}.zarr', 'earlier run')
    del disk[f'/in/{k2}.nc']
    w.count('probe.other_mode_before')

  if case['history'] == 'stale':
    # An earlier table of the same kind is already at the same place.
    keep = dict(disk)
    disk.clear()
    old = {n: dict(make_file_for(mode, case['out_seed'] + i), key=f['key'])
           for i, (n, f) in enumerate(case['files'].items()) if i < 2}
    spare = [v for v in sorted(VARIABLES) if not any(
        v in f['variables'] for f in case['files'].values())]
    if case['out_seed'] % 2 and spare:  # same labels, one more variable
      old = copy.deepcopy(case['files'])
      for f in old.values():
        f['seed'] += 1
        f['metrics'][spare[0]] = f['metrics'][f['variables'][0]]
        f['variables'] = f['variables'] + spare[:1]
    for n, f in old.items():
      disk[f'/in/{n}.nc'] = content(f, mode)
    run_script(case, mode, 'zim://out')
    check_table(case, old, f'zim://out/{mode}.zarr', 'earlier run')
    disk.clear()
    disk.update(keep)
    w.count('probe.stale_table')

  for name, f in case['faults'].items():
    if name != late:
      obs.faults[f'/in/{name}.nc'] = dict(f)

  def counted_open(fs, path, mode='rb', **kw):
    p = fs._strip_protocol(path)
    opens[p] = opens.get(p, 0) + 1
    f = obs.faults.get(p)
    if f and opens[p] > f['times']:
      del obs.faults[p]
    return plain_open(fs, path, mode, **kw)

  obsim.ObFS._open = counted_open
  try:
    zs.on = case['out_fault'] > 0
    if late:
      state.update(late_from=ch.pick(400), calls=0)
    attempt = 0
    done = False
    cut = None
    if case['cut'] is not None:
      exc = dict(MemoryError=MemoryError, KeyboardInterrupt=KeyboardInterrupt,
                 OSError=OSError, ValueError=ValueError)[case['exc']]('injected')
      cut = core.interrupt_at_line(case['cut'], exc, prefix='/public_benchmark/')
    out = 'zim://out'
    try:
      if cut is not None:
        with cut:
          run_script(case, mode, out)
      else:
        run_script(case, mode, out)
      done = True
    except core.Violation:
      raise
    except BaseException as e:  # pylint: disable=broad-except
      w.log(f'failed {type(e).__name__}')
      w.count('probe.combination_failed')
      if not (obs.hit or zs.failed or (cut and cut.fired)
              or case['history'] == 'stale'):
        raise
    if cut and cut.fired:
      w.count('fault.interrupted')
      w.log(f'cut {cut.where}')
    for p in sorted(obs.hit):
      w.count('fault.' + case['faults'][p[4:-3]]['kind'])
    files = dict(case['files'])
    if done:
      w.count('probe.combination_done')
      n = 0
      if late:
        # It appeared while the script ran: in or out, but not half.
        try:
          n = check_table(case, files, out + f'/{mode}.zarr', 'combined')
        except core.Violation:
          rest = {k: v for k, v in files.items() if k != late}
          n = check_table(case, rest, out + f'/{mode}.zarr', 'combined (late)')
        w.count('probe.appeared')
      else:
        n = check_table(case, files, out + f'/{mode}.zarr', 'combined')
      w.count('probe.entries_checked', n)
    # Everything has recovered: a rerun into the same place fails or is complete,
    # and one into a new place is complete.
    obs.faults.clear()
    zs.on = False
    state['late_from'] = 0
    if not done:
      try:
        run_script(case, mode, out)
      except Exception:  # pylint: disable=broad-except
        w.count('probe.leftovers_refused')
      else:
        w.count('probe.rerun_same_place')
        check_table(case, files, out + f'/{mode}.zarr', 'rerun')
      run_script(case, mode, 'zim://again')
      w.count('probe.entries_checked', check_table(
          case, files, f'zim://again/{mode}.zarr', 'rerun elsewhere'))
    w.log(repr(sorted((k, zsim.hash_of(repr(v))) for k, v in zs.files.items()
                      if not k.endswith('zarr.json'))))
  finally:
    obsim.ObFS._open = plain_open
  del attempt


def make_file_for(mode, seed):
  import random
  rng = random.Random(seed)
  return make_file(rng, mode, dict(regions=['global'],
                                   variables=['2m_temperature']))


def shrink(case):
  for n in case['files']:
    if len(case['files']) > 1:
      c = copy.deepcopy(case)
      del c['files'][n]
      c['faults'].pop(n, None)
      yield c
  for n in case['faults']:
    c = copy.deepcopy(case)
    del c['faults'][n]
    yield c
  for k, v in (('strangers', False), ('out_fault', 0), ('cut', None),
               ('history', ''), ('appears', False)):
    if case[k] != v:
      c = copy.deepcopy(case)
      c[k] = v
      yield c
  for n, f in case['files'].items():
    if len(f['variables']) > 1:
      c = copy.deepcopy(case)
      c['files'][n]['variables'] = f['variables'][:1]
      yield c
    if len(f['regions']) > 1:
      c = copy.deepcopy(case)
      c['files'][n]['regions'] = f['regions'][:1]
      yield c
