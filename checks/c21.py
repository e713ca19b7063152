"""C21: the evaluation scripts compute exactly what their command line asks for."""
import contextlib
import copy
import hashlib
import importlib.util
import io
import re
import sys
import types

import numpy as np
import xarray as xr

from vsim import beamsim
from vsim import core
from vsim import evalrun as er
from vsim import fsim
from vsim import ref
from vsim import zsim
import os

REPO = os.environ.get('REPO_ROOT', '/repo')
HOUR = np.timedelta64(1, 'h').astype('timedelta64[ns]')

# Regions of the benchmark (ECMWF and WMO definitions), independent of the script.
REGIONS = {
    'global': ((-90, 90), (0, 360)), 'tropics': ((-20, 20), (0, 360)),
    'northern-hemisphere': ((20, 90), (0, 360)),
    'southern-hemisphere': ((-90, -20), (0, 360)),
    'europe': ((35, 75), (-12.5, 42.5)), 'north-america': ((25, 60), (240, 285)),
    'north-atlantic': ((25, 65), (290, 350)),
    'north-pacific': ((25, 60), (145, 230)),
    'east-asia': ((25, 60), (102.5, 150)), 'ausnz': ((-45, -12.5), (120, 175)),
    'arctic': ((60, 90), (0, 360)), 'antarctic': ((-90, -60), (0, 360)),
    'northern-africa': ((5, 32.5), (-12.5, 37.5)),
    'southern-africa': ((-30, 5), (12.5, 37.5)),
    'south-america': ((-40, 5), (-75, -45)),
    'west-asia': ((15, 60), (42.5, 102.5)),
    'south-east-asia': ((-12.5, 25), (95, 125))}
UPPER = ['geopotential', 'temperature', 'u_component_of_wind',
         'v_component_of_wind', 'wind_speed', 'specific_humidity']
SURFACE = ['2m_temperature', 'mean_sea_level_pressure',
           '10m_u_component_of_wind', '10m_v_component_of_wind',
           '10m_wind_speed']
PRECIP = ['total_precipitation_6hr', 'total_precipitation_24hr']
DRY = {'total_precipitation_6hr': 1e-4, 'total_precipitation_24hr': 2.5e-4}
# model -> (family in the bucket, ensemble handling, variables, levels, years)
ALL = UPPER + SURFACE + PRECIP
Y3 = ['2018', '2020', '2022']
MODELS = {
    'hres': ('hres', None, ALL, None, Y3),
    'ens_mean': ('ifs_ens', 'mean', ALL, None, Y3),
    'ens_single_member': ('ifs_ens', 'first', ALL, None, Y3),
    'era5_forecast': ('era5-forecasts', None, UPPER + SURFACE, None,
                      ['2018', '2020']),
    'keisler': ('keisler', None, UPPER, None, ['2020']),
    'pangu': ('pangu', None, UPPER + SURFACE, None, Y3),
    'pangu_hres_init': ('pangu_hres_init', None, UPPER + SURFACE, None,
                        ['2020', '2022']),
    'neuralgcm_hres': ('neuralgcm_deterministic', None, UPPER, None, ['2020']),
    'neuralgcm_ens_mean': ('neuralgcm_ens', 'mean', UPPER, None, ['2020']),
    'neuralgcm_ens_single_member': ('neuralgcm_ens', 'first', UPPER, None,
                                    ['2020']),
    'fuxi': ('fuxi', None, [v for v in ALL if v != 'specific_humidity'],
             [500, 850], ['2020']),
    'ens': ('ifs_ens', 'all', ALL, None, Y3),
    'neuralgcm_ens': ('neuralgcm_ens', 'all', UPPER, None, ['2020']),
    'persistence': ('era5', None, ALL, None, Y3),
    'climatology': ('clim', None, ALL, None, Y3),
    'probabilistic_climatology': ('era5', 'years', ALL, None, Y3)}
PROBABILISTIC = ('ens', 'neuralgcm_ens', 'probabilistic_climatology')
# Not available at the highest resolution.
LOW = ('keisler', 'neuralgcm_hres', 'neuralgcm_ens', 'neuralgcm_ens_mean',
       'neuralgcm_ens_single_member')
TARGETS = {'era5': ('era5', ALL), 'hres_t0': ('hres_t0', UPPER + SURFACE)}
_MOD = {}


class GsFS(zsim.ZimFS):
  protocol = 'gs'

  @classmethod
  def _strip_protocol(cls, path):
    if isinstance(path, list):
      return [cls._strip_protocol(p) for p in path]
    path = str(path)
    if path.startswith('gs://'):
      path = path[len('gs://'):]
    return '/gs/' + path.strip('/') if not path.startswith('/gs') else path

  def unstrip_protocol(self, name):
    return 'gs://' + self._strip_protocol(name)[len('/gs/'):]


def setup():
  import dask
  from fsspec.registry import register_implementation
  dask.config.set(scheduler='synchronous')
  er.setup()
  zsim.install()
  register_implementation('gs', GsFS, clobber=True)
  _MOD['benchmark'] = load('public_benchmark/run_benchmark_evaluation.py')
  _MOD['example'] = load('evaluation_scripts/run_example_evaluation.py')


def load(rel):
  """The script with flags of its own (both define flags of the same name)."""
  from absl import flags
  import absl
  fv = flags.FlagValues()
  shim = types.ModuleType('absl.flags')
  for k in dir(flags):
    x = getattr(flags, k)
    if k.startswith('DEFINE_'):
      def define(*a, f=x, **kw):
        kw.setdefault('flag_values', fv)
        return f(*a, **kw)
      x = define
    if not k.startswith('__'):
      setattr(shim, k, x)
  shim.FLAGS = fv
  name = 'script_' + os.path.basename(rel)[:-3]
  spec = importlib.util.spec_from_file_location(name, os.path.join(REPO, rel))
  mod = importlib.util.module_from_spec(spec)
  sys.modules[name] = mod  # its functions are pickled by reference
  old = sys.modules['absl.flags']
  sys.modules['absl.flags'] = absl.flags = shim
  try:
    spec.loader.exec_module(mod)
  finally:
    sys.modules['absl.flags'] = absl.flags = old
  return mod, fv


def configs(keep):
  """The real configuration module, limited to some variables."""
  path = os.path.join(REPO, 'public_benchmark/public_configs.py')
  spec = importlib.util.spec_from_file_location('simulated_configs', path)
  mod = importlib.util.module_from_spec(spec)
  sys.modules['simulated_configs'] = mod
  spec.loader.exec_module(mod)
  for name in ('deterministic_prediction_configs', 'target_configs',
               'probabilistic_prediction_configs', 'climatology_configs'):
    new = {}
    for k, c in getattr(mod, name).items():
      c = dict(c)
      c['variables'] = [v for v in c['variables'] if v in keep]
      new[k] = c
    getattr(mod, name).clear()
    getattr(mod, name).update(new)
  return mod


# ------------------------------------------------------------- generation ----
def gen_eval(rng, tier):
  c = dict(seed=rng.randrange(2**31))
  c['script'] = rng.choice(['benchmark'] * 4 + ['example'])
  name = rng.choice(sorted(MODELS))
  if c['script'] == 'example':
    name = rng.choice(['hres', 'pangu', 'ens_mean'])
  fam, ens, variables, levels, years = MODELS[name]
  c['model'] = name
  c['year'] = rng.choice(years)
  c['target'] = rng.choice(['era5', 'era5', 'hres_t0'])
  c['res'] = rng.choice(['64x32', '64x32', '240x121'] +
                        ([] if name in LOW else ['1440x721']))
  if name == 'era5_forecast' and c['year'] == '2018' and c['res'] == '1440x721':
    c['res'] = '64x32'
  both = [v for v in variables if v in TARGETS[c['target']][1]]
  keep = rng.sample(both, min(len(both), rng.choice([1, 2, 2, 3])))
  if rng.random() < .35:
    p = rng.choice(['', '10m_'])
    keep += [p + 'u_component_of_wind', p + 'v_component_of_wind']
  if rng.random() < .3:
    keep += rng.sample(PRECIP, rng.choice([1, 2]))
  # Variables that only one side has are left out.
  if rng.random() < .3:
    keep += [rng.choice(ALL)]
  keep = sorted(set(keep))
  if not [v for v in keep if v in both and v in UPPER]:
    keep.append(rng.choice([v for v in both if v in UPPER]))
    keep = sorted(set(keep))
  c['keep'] = keep
  c['lead_set'] = rng.choice([[0, 6], [6, 12], [6, 12, 18, 24], [12, 24],
                              [0, 6, 12, 18, 24, 30]])
  c['lead'] = rng.choice([
      None, [0, 12, 6], [6, 19, 6], [6, 18, 6], [12, 13, 6], [0, 30, 12],
      [6, 25, 6]])
  if c['script'] == 'example':
    c['lead'] = c['lead'] or [0, 12, 6]
  c['freq'] = rng.choice([None, 6, 12, 24, 18])
  if c['script'] == 'example':
    c['freq'] = c['freq'] or 12
  y = c['year']
  day = rng.choice([f'{y}-01-01', f'{y}-02-28', f'{y}-06-15', f'{y}-03-01',
                    f'{y}-12-13', f'{y}-12-29', f'{y}-10-31'])
  c['start'] = day + rng.choice(['', 'T00', 'T12', 'T06'])
  n = rng.choice([6, 12, 24, 36, 48, 30])
  stop = np.datetime64(c['start'], 'h') + np.timedelta64(n, 'h')
  c['stop'] = str(stop)[:10] if str(stop)[11:13] == '00' and (
      rng.random() < .5) else str(stop)
  c['whole_year'] = False
  if c['script'] == 'benchmark' and rng.random() < .06 and ens != 'years':
    c['whole_year'] = True
    c['lead'] = rng.choice([[6, 7, 6], [12, 25, 12]])
    c['keep'] = [v for v in c['keep'] if v in both and v in UPPER][:1]
    c['freq'] = rng.choice([None, 24])
  if name in ('persistence', 'climatology', 'probabilistic_climatology') and (
      c['lead'] is None) and rng.random() < .7:
    c['lead'] = [0, 12, 6]
  c['chunk_init'] = rng.choice([None, 1, 1, 2, 3])
  c['chunk_lead'] = rng.choice([None, 1, 2, 12])
  if c['whole_year']:
    c['chunk_init'] = rng.choice([400, 500, 250])
    c['chunk_lead'] = None
  limit_chunks(c, 5 if tier == 'quick' else 12)
  c['temporal'] = rng.random() < .3
  c['n_lat'] = rng.choice([4, 5, 6])
  c['poles'] = rng.random() < .5
  c['n_lon'] = rng.choice([4, 5, 7])
  c['nan'] = name == 'keisler' and rng.random() < .8
  c['members'] = rng.choice([2, 3])
  c['lonlat'] = rng.random() < .5
  c['f8'] = rng.random() < .3
  # For the example script.
  c['levels'] = rng.choice([None, ['500'], ['850', '500'], ['500', '700', '850']])
  c['reduce'] = rng.choice([None, None, ['init_time', 'latitude', 'longitude'],
                            ['latitude', 'longitude'],
                            ['init_time', 'lead_time', 'latitude', 'longitude'],
                            ['init_time', 'longitude', 'latitude', 'level']])
  c['save_state'] = rng.random() < .5
  return c


def limit_chunks(c, most):
  """Larger chunks where there would be too many of them."""
  for _ in range(10):
    ni, nl = len(init_times(c)), len(lead_times(c))
    i, l = c['chunk_init'], c['chunk_lead']
    if c['script'] == 'benchmark':
      i, l = i or 1, l or 12
    a, b = -(-ni // (i or ni)), -(-nl // (l or nl))
    if a * b <= most:
      return
    if a >= b:
      c['chunk_init'] = (i or ni) + 1
    else:
      c['chunk_lead'] = (l or nl) * 2


def make(rng, tier, index):
  c = gen_eval(rng, tier)
  case = dict(kind='c21', evals=[c])
  if rng.random() < .25:
    first = gen_eval(rng, tier)
    if rng.random() < .6:  # the same data, another question
      first.update({k: copy.deepcopy(c[k]) for k in (
          'seed', 'year', 'target', 'res', 'keep', 'n_lat', 'poles', 'n_lon',
          'members', 'lonlat', 'f8', 'whole_year')})
      if c['year'] not in MODELS[first['model']][4] or (
          c['res'] == '1440x721' and first['model'] in LOW) or not [
              v for v in c['keep'] if v in UPPER
              and v in MODELS[first['model']][2]
              and v in TARGETS[c['target']][1]]:
        first = copy.deepcopy(c)
      for k in ('start', 'stop', 'freq', 'lead', 'chunk_init', 'chunk_lead',
                'lead_set'):
        first[k] = copy.deepcopy(c[k])
      first['script'] = c['script'] if first['model'] in (
          'hres', 'pangu', 'ens_mean') else 'benchmark'
      first['nan'] = first['model'] == 'keisler'
      first['temporal'] = not c['temporal']
    first['whole_year'] = False
    if first['start'] is None:
      first = copy.deepcopy(c)
    case['evals'] = [first, c]
  plan = er.gen_plan(rng, faults=rng.random() < .5)
  case['plan'] = plan
  case['p_get'] = rng.choice([0, 0, 0, .02, .1])
  case['p_fs'] = rng.choice([0, 0, 0, .05])
  case['lost'] = rng.random() < .08
  case['old'] = rng.random() < .3
  case['seed'] = rng.randrange(2**31)
  return case


# ------------------------------------------------------------------- data ----
def grid(c):
  n = c['n_lat']
  if c['poles']:
    lat = np.linspace(-90, 90, n)
  else:
    lat = (np.arange(n) + .5) * (180 / n) - 90
  lon = np.arange(c['n_lon']) * (360 / c['n_lon'])
  # Off the borders of all regions.
  return lat, lon + .03125


def rs_of(c, *key):
  h = hashlib.sha256(repr((c['seed'],) + key).encode()).digest()
  return np.random.RandomState(int.from_bytes(h[:4], 'big'))


def init_times(c):
  """The initialisation times the command line asks for."""
  f = c['freq'] or 12
  if c['whole_year']:
    y = c['year']
    stop = f'{y}-12-16T00' if y == '2022' or c['model'] == 'fuxi' else (
        f'{int(y) + 1}-01-01T00')
    start = f'{y}-01-01T00'
  else:
    start, stop = c['start'], c['stop']
  t, end = np.datetime64(start, 'ns'), np.datetime64(stop, 'ns')
  out = []
  while t < end:
    out.append(t)
    t = t + f * HOUR
  return np.array(out, 'datetime64[ns]')


def lead_times(c):
  if c['lead'] is None:
    if c['model'] in ('persistence', 'climatology', 'probabilistic_climatology'):
      hours = range(0, 15 * 24 + 1, 6)
    else:
      hours = c['lead_set']
  else:
    hours = range(*c['lead'])
  return np.array([h * HOUR for h in hours], 'timedelta64[ns]')


def values(c, rs, var, shape):
  if var in PRECIP:
    x = rs.choice([0, 0, 5e-5, 2e-4, 1e-3, 3e-3, 8e-3], size=shape)
  else:
    x = rs.randint(-120, 120, shape) / 4.0
  return x.astype('f8' if c['f8'] else 'f4')


def layout(c, ds, *key):
  """Stores the grid in an order of its own."""
  rs = rs_of(c, 'layout', *key)
  sp = ['longitude', 'latitude'] if c['lonlat'] else ['latitude', 'longitude']
  ds = ds.transpose(..., *sp)
  return ds


def flip(c, ds, *key):
  if rs_of(c, 'flip', *key).rand() < .35:
    ds = ds.isel(latitude=slice(None, None, -1))
  return ds


def within(ds, y0, y1):
  yr = ds.time.values.astype('datetime64[Y]').astype(int) + 1970
  return ds.isel(time=(yr >= y0) & (yr <= y1))


def path_meaning(path):
  """(family, resolution, is ensemble mean, first year, last year)."""
  m = re.match(r'gs://weatherbench2/datasets/([^/]+)/(.*)\.zarr$', path)
  fam, rest = m.groups()
  res = None
  for r in ('64x32', '240x121', '1440x721'):
    if r in rest:
      res = r
  if res is None and '0p25' in rest:
    res = '1440x721'
  y = re.match(r'(\d{4})(?:-(\d{4})(?!x))?', rest)
  y0 = int(y.group(1))
  y1 = int(y.group(2) or y0)
  return fam, res, rest.endswith('_mean'), y0, y1


def predictions(c, fam, res, mean, y0, y1):
  lat, lon = grid(c)
  init = init_times(c)
  want = sorted(set(init.tolist()) | {int(init[0] - 6 * HOUR),
                                      int(init[-1] + 6 * HOUR)})
  init = np.array(want, 'datetime64[ns]')
  leads = sorted(set(c['lead_set']) | (set(range(*c['lead'])) if c['lead']
                                       else set()))
  lead = np.array([h * HOUR for h in leads], 'timedelta64[ns]')
  lev = [500, 700, 850, 1000]
  ens = fam in ('ifs_ens', 'neuralgcm_ens') and not mean
  member = 'realization' if fam == 'neuralgcm_ens' else 'number'
  out = {}
  for v in c['keep'] + ['unused']:
    dims = ['time', 'prediction_timedelta']
    size = [len(init), len(lead)]
    if ens:
      dims.append(member)
      size.append(c['members'])
    if v in UPPER:
      dims.append('level')
      size.append(4)
    dims += ['latitude', 'longitude']
    size += [len(lat), len(lon)]
    x = values(c, rs_of(c, 'pred', fam, res, mean, v), v, size)
    if c['nan'] and fam == 'keisler':
      x[rs_of(c, 'nan', v).rand(*size) < .2] = np.nan
    out[v] = (dims, x)
  ds = xr.Dataset(out, coords=dict(
      time=init, prediction_timedelta=lead, level=lev, latitude=lat,
      longitude=lon))
  if ens:
    ds = ds.assign_coords({member: range(c['members'])})
  return flip(c, layout(c, within(ds, y0, y1), fam), fam)


def climate_times(c, first=1990, last=2019):
  """{valid time: times with the same day of year and hour}."""
  out = {}
  for t in np.unique(init_times(c)[:, None] + lead_times(c)[None]):
    doy = int((t.astype('datetime64[D]') - t.astype('datetime64[Y]')
               .astype('datetime64[D]')).astype(int))
    hod = int((t - t.astype('datetime64[D]')) / HOUR)
    out[t] = [np.datetime64(f'{y}-01-01', 'ns') + (24 * doy + hod) * HOUR
              for y in range(first, last + 1)]
  return out


def analyses(c, fam, res, y0, y1):
  lat, lon = grid(c)
  init, lead = init_times(c), lead_times(c)
  t = set((init[:, None] + lead[None]).ravel().tolist()) | set(init.tolist())
  t |= {int(init[0] - 6 * HOUR), int(init[-1] + 6 * HOUR)}
  if c['model'] == 'probabilistic_climatology' and fam == 'era5':
    for x in climate_times(c, 1989, 2020).values():
      t |= {int(y) for y in x}
  t = np.array(sorted(t), 'datetime64[ns]')
  out = {}
  for v in c['keep']:
    if fam == 'hres_t0' and v in PRECIP:
      continue
    dims, size = ['time'], [len(t)]
    if v in UPPER:
      dims.append('level')
      size.append(4)
    dims += ['latitude', 'longitude']
    out[v] = (dims, values(c, rs_of(c, 'ana', fam, res, v), v,
                           size + [len(lat), len(lon)]))
  coords = dict(time=t, level=[500, 700, 850, 925], latitude=lat, longitude=lon)
  ds = xr.Dataset(out, coords=coords)
  if fam == 'era5':
    ds['land_sea_mask'] = (('latitude', 'longitude'), rs_of(
        c, 'land', res).randint(0, 2, (len(lat), len(lon))).astype('f4'))
  return flip(c, layout(c, within(ds, y0, y1), fam), fam)


def climatology(c, res, y1):
  lat, lon = grid(c)
  t = np.unique(init_times(c)[:, None] + lead_times(c)[None])
  doy = (t.astype('datetime64[D]') - t.astype('datetime64[Y]')
         .astype('datetime64[D]')).astype(int) + 1
  doy = np.array(sorted(set(doy) | {1, 60, 366}))
  hour = np.array([0, 6, 12, 18])
  out = {}
  for v in c['keep']:
    dims, size = ['hour', 'dayofyear'], [4, len(doy)]
    if v in UPPER:
      dims.append('level')
      size.append(4)
    dims += ['latitude', 'longitude']
    out[v] = (dims, values(c, rs_of(c, 'clim', res, y1, v), v,
                           size + [len(lat), len(lon)]))
    if v in PRECIP:
      rs = rs_of(c, 'seeps', res, v)
      sp = (len(lat), len(lon))
      full = (4, len(doy)) + sp
      base = rs.choice([.05, .3, .5, .7, .92], size=sp)
      out[v + '_seeps_dry_fraction'] = (
          dims, (base + rs.randint(-2, 3, full) * .015).astype('f4'))
      out[v + '_seeps_threshold'] = (
          dims, rs.choice([4e-4, 2e-3, 6e-3], size=full).astype('f4'))
  ds = xr.Dataset(out, coords=dict(hour=hour, dayofyear=doy,
                                   level=[300, 500, 700, 850], latitude=lat,
                                   longitude=lon))
  return flip(c, layout(c, ds, 'clim'), 'clim')


def dataset(c, path):
  fam, res, mean, y0, y1 = path_meaning(path)
  if fam == 'era5-hourly-climatology':
    return climatology(c, res, y1)
  if fam in ('era5', 'hres_t0'):
    return analyses(c, fam, res, y0, y1)
  return predictions(c, fam, res, mean, y0, y1)


def fill_store(zs, c, conf):
  """Writes the archives the names on the command line refer to."""
  key = f"{c['model']}_{c['res']}_{c['year']}"
  paths = {conf.target_configs[f"{c['target']}_{c['res']}"]['path'],
           conf.target_configs[f"era5_{c['res']}"]['path'],
           conf.climatology_configs[f"era5_{c['res']}_{c['year']}"]['path']}
  for table in (conf.deterministic_prediction_configs,
                conf.probabilistic_prediction_configs):
    if key in table:
      paths.add(table[key]['path'])
  for p in sorted(paths):
    dataset(c, p).to_zarr(p, mode='w')
  return sorted(paths)


# ----------------------------------------------------------------- oracle ----
class Truth:
  """Definition of each entry, in numpy, from the generated archives."""

  def __init__(self, c):
    self.c = c
    fam, ens, variables, levels, _ = MODELS[c['model']]
    tfam, tvars = TARGETS[c['target']]
    self.vars = sorted(v for v in c['keep'] if v in variables and v in tvars)
    self.init, self.lead = init_times(c), lead_times(c)
    self.lat, self.lon = grid(c)
    big = 10**4
    res = c['res']
    self.levels = levels or [500, 700, 850]
    if c['script'] == 'example':
      self.levels = [int(x) for x in c['levels'] or ['500', '700', '850']]
    self.tgt = norm(analyses(c, tfam, res, 0, big))
    self.era5 = norm(analyses(c, 'era5', res, 0, big))
    self.clim = norm(climatology(c, res, 0))
    # Climatologies of different years hold different values.
    y1 = 2017 if c['year'] == '2018' else 2019
    self.clim = norm(climatology(c, res, y1))
    if fam not in ('era5', 'clim'):
      self.pred = norm(predictions(c, fam, res, ens == 'mean', 0, big))
    self.fam, self.ens = fam, ens
    w = ref.area_weights([float(x) for x in self.lat])
    self.area = np.array([w[float(x)] for x in self.lat])[:, None] * np.ones(
        (1, len(self.lon)))
    self.land = self.era5['land_sea_mask'].transpose(
        'latitude', 'longitude').values > 0
    self.bins = {}
    regions = REGIONS if c['script'] == 'benchmark' else {
        k: REGIONS[k] for k in ('global', 'northern-hemisphere')}
    for k, ((a, b), (lo, hi)) in regions.items():
      m = np.array([[a <= y <= b and ref._in_lon(x, lo, hi) for x in self.lon]  # pylint: disable=protected-access
                    for y in self.lat])
      self.bins[k] = m
      if c['script'] == 'benchmark':
        self.bins[k + '_land'] = m & self.land

  def at(self, ds, var, **sel):
    """Values as [init, lead, (member), (level), lat, lon] in float64."""
    x = ds[var]
    if 'level' in x.dims:
      x = x.sel(level=self.levels)
    x = x.sel(**sel)
    return x

  def grids(self, var):
    """predictions, targets, climatology: [I, L, (M), lev, lat, lon]."""
    vt = self.init[:, None] + self.lead[None]
    flat = vt.ravel()
    shape = vt.shape
    t = self.at(self.tgt, var, time=flat)
    t = self.arr(t, ['time'], shape)
    p = None
    if self.fam == 'era5' and self.ens is None:  # persistence
      p = self.at(self.era5, var, time=self.init)
      p = self.arr(p, ['time'], (len(self.init),))
      p = np.repeat(p[:, None], len(self.lead), 1)
    elif self.fam == 'era5':
      ct = climate_times(self.c)
      members = [self.arr(self.at(self.era5, var, time=np.array(
          [ct[x][m] for x in flat])), ['time'], shape) for m in range(30)]
      p = np.stack(members, 2)
    elif self.fam == 'clim':
      p = self.clim_at(var, flat, shape)
    else:
      x = self.at(self.pred, var, time=self.init, prediction_timedelta=self.lead)
      m = [d for d in ('number', 'realization') if d in x.dims]
      lead_dims = ['time', 'prediction_timedelta'] + m
      sp = ['level'] if 'level' in x.dims else []
      x = x.transpose(*lead_dims, *sp, 'latitude', 'longitude').values.astype('f8')
      if not sp:
        x = x[..., None, :, :]
      p = x
      if self.ens == 'first':
        p = p[:, :, 0]
    return p, t, self.clim_at(var, flat, shape)

  def arr(self, x, dims, shape):
    sp = ['level'] if 'level' in x.dims else []
    v = x.transpose(*dims, *sp, 'latitude', 'longitude').values.astype('f8')
    if not sp:
      v = v[:, None]
    return v.reshape(shape + v.shape[1:])

  def clim_at(self, var, flat, shape):
    out = []
    for t in flat:
      doy, hod = doy_hour(t)
      x = self.at(self.clim, var, dayofyear=doy, hour=hod)
      sp = ['level'] if 'level' in x.dims else []
      v = x.transpose(*sp, 'latitude', 'longitude').values.astype('f8')
      out.append(v if sp else v[None])
    out = np.array(out)
    return out.reshape(shape + out.shape[1:])

  def reduce_dims(self):
    c = self.c
    if c['script'] == 'example':
      return c['reduce'] or ['init_time', 'latitude', 'longitude']
    return ['latitude', 'longitude'] + ([] if c['temporal'] else ['init_time'])

  def mean(self, stat, ok=None):
    """Weighted means: [region, I?, L?, lev?] of stat [I, L, lev, lat, lon]."""
    red = self.reduce_dims()
    axes = tuple(i for i, d in enumerate(
        ['init_time', 'lead_time', 'level', 'latitude', 'longitude'])
                 if d in red)
    out = []
    for m in self.bins.values():
      w = np.broadcast_to(self.area * m, stat.shape)
      if ok is not None:
        w = w * ok
      s = np.where(w > 0, stat, 0)
      with np.errstate(all='ignore'):
        out.append((s * w).sum(axes) / w.sum(axes))
    return np.array(out)

  def metrics(self):
    """{name: (array [region, I?, L?, lev?], atol)}."""
    c = self.c
    out = {}
    prob = c['model'] in PROBABILISTIC
    scale = lambda v: 1e-3 if v in PRECIP else 1.0
    # Variables without a dimension to be reduced are left out, as documented.
    g = {v: self.grids(v) for v in self.vars
         if v in UPPER or 'level' not in self.reduce_dims()}
    for v, (p, t, cl) in g.items():
      s = scale(v)
      if prob:
        n = p.shape[2]
        mu = p.mean(2)
        var = p.var(2, ddof=1)
        skill = np.abs(p - t[:, :, None]).mean(2)
        spread = np.abs(p[:, :, :, None] - p[:, :, None]).sum((2, 3)) / (
            n * (n - 1))
        out['crps.' + v] = self.mean(skill) - .5 * self.mean(spread), s * 1e-5
        um = self.mean((mu - t) ** 2 - var / n)
        # Too small to be compared.
        um = np.where(um > .02 * self.mean(var) + s * s * 1e-3, um, -1)
        with np.errstate(all='ignore'):
          out['unbiased_spread_skill.' + v] = (
              np.where(um > 0, np.sqrt(self.mean(var) / um), np.inf), 1e-3)
          out['unbiased_mean_rmse.' + v] = (
              np.where(um > 0, np.sqrt(um), np.inf), s * 1e-5)
        out['mean_rmse.' + v] = np.sqrt(self.mean((mu - t) ** 2)), s * 1e-5
        continue
      ok = np.isfinite(p) if c['nan'] else None
      mse = self.mean((p - t) ** 2, ok)
      out['mse.' + v] = mse, s * s * 1e-5
      out['rmse.' + v] = np.sqrt(mse), s * 1e-5
      if c['script'] == 'example':
        continue
      out['bias.' + v] = self.mean(p - t, ok), s * 1e-5
      out['prediction_activity.' + v] = (
          np.sqrt(self.mean((p - cl) ** 2, ok)), s * 1e-5)
      if not c['nan']:
        with np.errstate(all='ignore'):
          out['acc.' + v] = (
              self.mean((p - cl) * (t - cl)) / np.sqrt(
                  self.mean((p - cl) ** 2) * self.mean((t - cl) ** 2)), 1e-4)
      if v in PRECIP:
        out['seeps.' + v] = self.seeps(v, p, t), 1e-4
    if not prob and c['script'] == 'benchmark':
      for pre in ('', '10m_'):
        u, v = pre + 'u_component_of_wind', pre + 'v_component_of_wind'
        if u in g and v in g:
          se = ((g[u][0] - g[u][1]) ** 2 + (g[v][0] - g[v][1]) ** 2)
          ok = np.isfinite(se) if c['nan'] else None
          out[f'vector_rmse.{pre}wind'] = np.sqrt(self.mean(se, ok)), 1e-5
    return out

  def seeps(self, var, p, t):
    vt = (self.init[:, None] + self.lead[None]).ravel()
    thr = self.clim_at(var + '_seeps_threshold', vt,
                       (len(self.init), len(self.lead)))
    q = self.clim[var + '_seeps_dry_fraction'].transpose(
        'hour', 'dayofyear', 'latitude', 'longitude').values.astype('f8')
    p1 = q.mean((0, 1))
    dry = DRY[var]
    cat = lambda x: np.where(x <= dry, 0, np.where(x >= thr, 2, 1))
    f, o = cat(p), cat(t)
    z = np.zeros_like(p1)
    mat = 0.5 * np.array([
        [z, 1 / (1 - p1), 4 / (1 - p1)],
        [1 / p1, z, 3 / (1 - p1)],
        [1 / p1 + 3 / (2 + p1), 3 / (2 + p1), z]])
    i, j = np.meshgrid(range(p1.shape[0]), range(p1.shape[1]), indexing='ij')
    ok = (p1 >= .1) & (p1 <= .85)
    return self.mean(mat[f, o, i, j], np.broadcast_to(ok, p.shape))


def doy_hour(t):
  d = t.astype('datetime64[D]')
  doy = int((d - t.astype('datetime64[Y]').astype('datetime64[D]')).astype(int))
  return doy + 1, int((t - d) / HOUR)


def norm(ds):
  return ds.sortby('latitude')


def compare(c, ds, w):
  tr = Truth(c)
  want = tr.metrics()
  names = set(want)
  if c['nan']:
    names |= {'acc.' + v for v in tr.vars}
  if set(ds.data_vars) != names:
    raise core.Violation('variables', f'{sorted(ds.data_vars)} instead of '
                         f'{sorted(names)}')
  red = tr.reduce_dims()
  labels = dict(region=list(tr.bins),
                init_time=[int(x) for x in tr.init],
                lead_time=[int(x) for x in tr.lead], level=tr.levels)
  n = 0
  for name, (x, atol) in want.items():
    got = ds[name]
    v = name.split('.', 1)[1]
    upper = v in UPPER or v == 'wind'
    order = ['region', 'init_time', 'lead_time', 'level']
    dims = [d for d in order if d not in red and (d != 'level' or upper)]
    if set(got.dims) != set(dims):
      raise core.Violation('dims', f'{name}: {got.dims} instead of {dims}')
    x = x.reshape([len(labels[d]) for d in dims])
    at = []
    for d in dims:
      lab = got[d].values
      if d in ('init_time', 'lead_time'):
        lab = lab.astype('datetime64[ns]' if d[0] == 'i' else 'timedelta64[ns]')
        lab = [int(y) for y in lab]
      else:
        lab = lab.tolist()
      if sorted(lab) != sorted(labels[d]):
        raise core.Violation('labels', f'{name}: {d} has {lab} instead of '
                             f'{labels[d]}')
      at.append([lab.index(y) for y in labels[d]])
    g = got.transpose(*dims).values[np.ix_(*at)]
    skip = np.isposinf(x)
    bad = ~(np.isclose(g, x, rtol=1e-4, atol=atol, equal_nan=True) | skip)
    if bad.any():
      i = tuple(np.argwhere(bad)[0])
      raise core.Violation(
          'wrong-value', f'{name} is {g[i]} instead of {x[i]} at '
          f'{ {d: labels[d][k] for d, k in zip(dims, i)} }')
    n += x.size
  w.count('probe.entries_checked', n)


# -------------------------------------------------------------- execution ----
def command(c, outdir):
  if c['script'] == 'example':
    conf = sys.modules['simulated_configs']
    args = [
        '--prediction_path=' + conf.deterministic_prediction_configs[
            f"{c['model']}_{c['res']}_{c['year']}"]['path'],
        '--target_path=' + conf.target_configs[
            f"{c['target']}_{c['res']}"]['path'],
        f'--output_path={outdir}/results.nc',
        '--variables=' + ','.join(v for v in c['keep'] if not (
            v in PRECIP and c['target'] == 'hres_t0') and v in MODELS[
                c['model']][2]),
        '--levels=' + ','.join(c['levels'] or ['500', '700', '850'])]
    if c['reduce']:
      args.append('--reduce_dims=' + ','.join(c['reduce']))
    if c['save_state']:
      args.append(f'--aggregation_state_output_path={outdir}/state.nc')
    name = 'results.nc'
    chunk = 'time_chunk_size'
  else:
    args = ['--config=simulated_configs', '--prediction=' + c['model'],
            '--target=' + c['target'], '--resolution=' + c['res'],
            '--year=' + c['year'], f'--output_dir={outdir}']
    if c['temporal']:
      args.append('--temporal')
    times = c['year'] if c['whole_year'] else f"{c['start']}_{c['stop']}"
    name = f"{c['model']}_vs_{c['target']}_{c['res']}_{times}" + (
        '_temporal' if c['temporal'] else '') + '.nc'
    chunk = 'init_time_chunk_size'
  if not c['whole_year']:
    args += ['--time_start=' + c['start'], '--time_stop=' + c['stop']]
  if c['freq']:
    args.append(f"--time_frequency={c['freq']}")
  if c['lead']:
    args += [f"--lead_time_start={c['lead'][0]}",
             f"--lead_time_stop={c['lead'][1]}",
             f"--lead_time_frequency={c['lead'][2]}"]
  if c['chunk_init']:
    args.append(f"--{chunk}={c['chunk_init']}")
  if c['chunk_lead']:
    args.append(f"--lead_time_chunk_size={c['chunk_lead']}")
  args.append('--runner=DirectRunner')
  return args, name


def run_script(w, c, args, plan, started):
  import apache_beam as beam
  mod, fv = _MOD[c['script']]
  fv.unparse_flags()
  for name in fv:
    fv[name].unparse()
  rest = fv(['script'] + args)
  runner = beamsim.SimRunner(w, plan)
  plain = beam.Pipeline

  def pipeline(runner_=None, **kw):
    del runner_
    started()
    return plain(runner=runner)

  beam.Pipeline = lambda *a, **kw: pipeline()
  try:
    with contextlib.redirect_stdout(io.StringIO()):
      mod.main(rest)
  finally:
    beam.Pipeline = plain
    runner.drain_zombies()


def execute(case, ch, st):
  np.seterr(all='ignore')
  case = copy.deepcopy(case)
  with core.World(ch) as w:
    store = fsim.Storage(w)
    fsim.set_storage(store)
    for i, c in enumerate(case['evals']):
      last = i == len(case['evals']) - 1
      one(w, ch, case, c, store, f'sim:///out{i}', last)
    if len(case['evals']) > 1:
      w.count('probe.second_evaluation')
  st.absorb(w)
  st.nontrivial = True


def one(w, ch, case, c, store, outdir, last):
  from weatherbenchX import aggregation
  zs = zsim.ZStore(w, case['seed'], 0, case['p_get'] if last else 0,
                   max_per_key=1, max_total=4)
  zsim.set_store(zs)
  GsFS.clear_instance_cache()
  conf = configs(c['keep'])
  before = repr(public(conf))
  fill_store(zs, c, conf)
  content = dict(zs.files)
  args, name = command(c, outdir)
  path = outdir[len('sim://'):] + '/' + name
  old = None
  if last and case['old']:
    old = b'an older result'
    store.put(path, old)
  plan = beamsim.Plan(**(case['plan'] if last else er.gen_plan(
      __import__('random').Random(case['seed']))))
  store.p_fault = case['p_fs'] if last else 0
  store.max_faults = store.faulted_ops + 3
  if last and case['lost']:
    chunks = sorted(k for k in zs.files if '/c/' in k and any(
        f'/{v}/' in k for v in Truth(c).vars))
    zs.lost.add(chunks[ch.pick(len(chunks))])
    w.count('fault.lost_piece')
  late = case['seed'] % 3 > 0  # reading fails only once the job is running

  def started():
    zs.on = True

  zs.on = not late
  w.log('RUN ' + ' '.join(args))
  try:
    run_script(w, c, args, plan, started)
    done = True
  except (core.Violation, core.HarnessError):
    raise
  except Exception as e:  # pylint: disable=broad-except
    done = False
    w.log(f'failed {type(e).__name__}')
    if not (zs.failed or zs.lost or store.faulted_ops or w.counters.get(
        'fault.worker_crash') or plan_failed(w)):
      raise
    w.count('probe.evaluation_failed')
  zs.on = False
  store.p_fault = 0
  files = {k: bytes(i.data) for k, i in store.files.items()
           if k.startswith(outdir[len('sim://'):])}
  if zs.files != content:
    raise core.Violation('source-changed', 'the archives were modified')
  if repr(public(conf)) != before:
    raise core.Violation('configuration-changed',
                         'the configuration module was modified')
  if not done:
    got = files.pop(path, None)
    if got != old and not store.faulted_ops:
      raise core.Violation('partial', 'a failed evaluation left a result file')
    return
  w.count('probe.evaluation_done')
  w.count('probe.' + c['script'])
  w.count('probe.model_' + c['model'])
  if c['whole_year']:
    w.count('probe.whole_year')
  expect = {path}
  state = path.replace('results.nc', 'state.nc')
  if c['script'] == 'example' and c['save_state']:
    expect.add(state)
  # A crashed worker cannot clean up.
  if not plan_failed(w) and set(files) != expect:
    raise core.Violation('files', f'{sorted(files)} instead of {sorted(expect)}')
  if path not in files:
    raise core.Violation('files', f'no {path}, but {sorted(files)}')
  ds = er.load_nc(files[path])
  compare(c, ds, w)
  if state in expect and state != path:
    from weatherbenchX.metrics import deterministic
    s = aggregation.AggregationState.from_dataset(er.load_nc(files[state]))
    compare(c, er.normal_times(s.metric_values(
        {'rmse': deterministic.RMSE(), 'mse': deterministic.MSE()})), w)
    w.count('probe.state_checked')
  for k in ('temporal', 'nan'):
    if c[k]:
      w.count('probe.' + k)
  if any(v in PRECIP for v in Truth(c).vars):
    w.count('probe.precipitation')
  w.log(repr(sorted(ds.data_vars)))


def public(conf):
  return {k: getattr(conf, k) for k in dir(conf) if k.endswith('_configs')}


def plan_failed(w):
  return any(k.startswith('fault.') for k in w.counters)


def shrink(case):
  if len(case['evals']) > 1:
    yield dict(case, evals=case['evals'][1:])
  for k, v in (('p_get', 0), ('p_fs', 0), ('lost', False), ('old', False)):
    if case[k] != v:
      yield dict(case, **{k: v})
  c = case['evals'][-1]
  pre = case['evals'][:-1]
  if len(c['keep']) > 1:
    for v in c['keep']:
      yield dict(case, evals=pre + [dict(
          c, keep=[x for x in c['keep'] if x != v])])
  for k, v in (('temporal', False), ('nan', False), ('f8', False),
               ('lonlat', False), ('poles', False), ('chunk_init', None),
               ('chunk_lead', None), ('n_lat', 4), ('n_lon', 4),
               ('freq', None if c['script'] == 'benchmark' else 12)):
    if c[k] != v:
      yield dict(case, evals=pre + [dict(c, **{k: v})])
