"""C04: chunks with different coordinates or bins merge without loss."""
import itertools
import math

import numpy as np
from weatherbenchX import weighting
from weatherbenchX.data_loaders import base as loader_base
import xarray as xr

from vsim import beamsim
from vsim import core
from vsim import evalrun as er
from vsim import fsim
from vsim import gen

HOUR = 3600 * 10**9
STATIONS = [  # name, latitude, longitude, elevation
    ('KA', -30.0, 0.0, 5.0), ('KB', 0.0, 120.0, 100.0), ('LFPG', 45.0, 240.0, 100.0),
    ('X1', 45.0, 0.0, 950.0), ('Z', -30.0, 240.0, 0.0), ('NOELEV', 0.0, 0.0, None)]
LATS, LONS = [-30.0, 0.0, 45.0], [0.0, 120.0, 240.0]
ELEV_EDGES = [0.0, 50.0, 100.0, 1000.0]
SIMPLE = ['Error', 'AbsoluteError', 'SquaredError', 'RMSE',
          'PredictionPassthrough', 'TargetPassthrough']
OTHER = ['CSI', 'ETS', 'Exceed', 'BinsBias', 'ReLUMAE', 'Accuracy', 'FB', 'RPS']
FN = {
    'Error': lambda p, t: p - t, 'AbsoluteError': lambda p, t: abs(p - t),
    'SquaredError': lambda p, t: (p - t)**2, 'RMSE': lambda p, t: (p - t)**2,
    'PredictionPassthrough': lambda p, t: p,
    'TargetPassthrough': lambda p, t: t}


def setup():
  er.setup()
  import weatherbenchX.interpolations  # noqa


# ------------------------------------------------------------------ cases ----
SPARSE_BINS = ['station', 'station_global', 'lead', 'lead_global', 'init',
               'init_global', 'init_hour', 'init_hour_global', 'lead_hour',
               'valid_hour', 'valid_hour_global', 'valid_doy', 'lead_seconds',
               'elev', 'elev_global', 'sets', 'sets_full', 'regions', 'latbins',
               'lonbins', 'hoursets', 'valid']
BIN_DIM = dict(station='stationName', station_global='stationName',
               lead='lead_time', lead_global='lead_time', init='init_time',
               init_global='init_time', init_hour='init_time_hour',
               init_hour_global='init_time_hour', lead_hour='lead_time_hour',
               valid_hour='valid_time_hour', valid_hour_global='valid_time_hour',
               valid_doy='valid_time_dayofyear', valid='valid_time',
               lead_seconds='lead_seconds_hour', elev='elevation',
               elev_global='elevation', sets='stationset', sets_full='stationset',
               regions='region', latbins='latitude_bins',
               lonbins='longitude_bins', hoursets='init_time_hour_sets')
GRID_BINS = ['init_hour', 'init_hour_global', 'lead_hour', 'hoursets', 'station',
             'elev', 'sets_full']


def make(rng, tier, index):
  family = rng.choice(['sparse', 'sparse', 'kept'])
  big = tier != 'quick'
  d = dict(seed=rng.randrange(10**9), n_init=rng.randint(1, 8 if big else 4),
           n_lead=rng.randint(1, 5 if big else 3),
           init_step=rng.choice([6, 12, 24]), lead_step=rng.choice([6, 12]),
           lead_start=rng.choice([0, 6]),
           density=rng.choice([0.0, 0.15, 0.4, 0.7, 1.0]) if rng.random() < .97
           else 0.0,
           p_empty=rng.choice([0, 0.3, 0.6]), nan=rng.choice([0, 0, 0.2, 0.5]),
           dtype=rng.choice(['float64', 'float32']),
           repeat=rng.choice([0, 1]), order=rng.randrange(6), n_ens=0,
           vars=['t', 'u'][:rng.randint(1, 2)])
  if d['density'] == 0.0 and rng.random() < 0.8:
    d['density'] = 0.5
  metrics = rng.sample(SIMPLE, rng.randint(1, 2))
  if rng.random() < 0.4:
    metrics.append(rng.choice(OTHER))
  case = dict(family=family, data=d, metrics=metrics,
              mode=rng.choice(['beam', 'beam', 'loop']),
              weight=rng.choice([0, 0, 1]), masked=bool(d['nan']),
              plan=er.gen_plan(rng, faults=rng.random() < 0.4),
              skipna=False)
  if d['nan'] and rng.random() < 0.3:
    case['skipna'] = True
    case['masked'] = rng.random() < 0.5
  c = er.gen_chunks(rng, d)
  if rng.random() < 0.7:
    c = [rng.choice([1, 1, 2]), rng.choice([1, 1, 2])]
  case['chunks'] = c
  if family == 'sparse':
    case['flow'] = rng.choice(['same', 'same', 'split', 'interp', 'altitude'])
    if case['flow'] == 'altitude':
      d['vars'] = rng.choice([['2m_temperature', 'u'], ['10m_wind_speed'],
                              ['2m_temperature', '10m_wind_speed']])
    pool = rng.sample(SPARSE_BINS, rng.choice([1, 1, 2, 2, 3]))
    case['reduce'] = ['index']
    case['missing_var'] = 0
    if len(d['vars']) > 1 and rng.random() < 0.3 and case['flow'] not in (
        'interp', 'altitude'):
      case['missing_var'] = rng.randint(1, d['n_lead'])
      case['chunks'][1] = 1
      case['mode'] = 'beam'
      if case['missing_var'] >= d['n_lead']:
        case['missing_var'] = d['n_lead'] - 1
  else:
    case['flow'] = 'same'
    case['missing_var'] = 0
    case['reduce'] = rng.choice([['init_time'], ['init_time'], ['lead_time'],
                                 ['init_time', 'lead_time'], ['station'],
                                 ['init_time', 'station'],
                                 ['init_time', 'lead_time', 'station']])
    case['labels'] = rng.choice(['str', 'str', 'int', 'float'])
    case['nonindex'] = rng.choice(['', 'elev', 'elev', 'launch', 'vary'])
    ok = {'init_hour': 'init_time', 'init_hour_global': 'init_time',
          'hoursets': 'init_time', 'lead_hour': 'lead_time', 'station': None,
          'elev': None, 'sets_full': 'station'}
    pool = [b for b in rng.sample(GRID_BINS, rng.choice([0, 0, 1, 2]))
            if ok[b] in case['reduce']]
    if case['weight'] and 'station' not in case['reduce']:
      case['weight'] = 0
    if case['labels'] != 'str':
      pool = [b for b in pool if b != 'sets_full']
    # Positions without an observation are NaN, hence masked.
    case['masked'], case['skipna'] = True, case['skipna']
    if rng.random() < 0.1:
      case['masked'], case['skipna'] = False, True
  bins, seen = [], set()
  for b in pool:
    if BIN_DIM[b] not in seen:
      seen.add(BIN_DIM[b])
      bins.append(b)
  case['bins'] = bins
  return case


# ------------------------------------------------------------------- data ----
def station_labels(case):
  kind = case.get('labels', 'str')
  n = len(STATIONS)
  if kind == 'str':
    return [s[0] for s in STATIONS]
  if kind == 'int':
    return [850, 500, 10, 300, 925, 77][:n]
  return [2.5, 0.25, 7.0, 1.0, -3.5, 4.0][:n]


def observations(case):
  """[dict] per (init index, lead index): every observation and forecast."""
  d = case['data']
  rs = np.random.RandomState(d['seed'] % (2**32 - 1))
  grid = rs.randint(-12, 13, size=(len(d['vars']), d['n_init'], d['n_lead'],
                                   len(LATS), len(LONS))) / 4.0
  out = {}
  for i in range(d['n_init']):
    for l in range(d['n_lead']):
      rows = []
      empty = rs.random_sample() < d['p_empty']
      for s, (name, lat, lon, elev) in enumerate(STATIONS):
        for rep in range(2 if d['repeat'] and case['family'] == 'sparse' else 1):
          x = rs.random_sample()
          vals = rs.randint(-12, 13, size=(len(d['vars']), 2)) / 4.0
          bad = rs.random_sample(len(d['vars'])) < d['nan']
          if empty or x >= d['density']:
            continue
          o = dict(s=s, i=i, l=l, p=[], t=[])
          for v in range(len(d['vars'])):
            p, t = vals[v]
            if case['flow'] in ('interp', 'altitude'):
              p = grid[v, i, l, LATS.index(lat), LONS.index(lon)]
            if case['flow'] == 'altitude':
              p = at_altitude(case, v, p, s)
            o['p'].append(float(p))
            o['t'].append(float('nan') if bad[v] else float(t))
          rows.append(o)
      if d['order'] % 2 and rows:
        rows = [rows[k] for k in rs.permutation(len(rows))]
      out[i, l] = rows
  return out, grid


GRID_ELEV = [[20.0, 0.0, 980.0], [64.0, -20.0, 4000.0], [-400.0, 12.0, 500.0]]


def at_altitude(case, v, p, s):
  """The documented adjustment of a grid value to the height of a station."""
  _, lat, lon, elev = STATIONS[s]
  if elev is None:
    return p
  dz = elev - GRID_ELEV[LATS.index(lat)][LONS.index(lon)]
  if abs(dz) >= 1500:
    dz = 0.0
  name = case['data']['vars'][v]
  if name == '2m_temperature':
    return p - 0.0065 * dz
  if name == '10m_wind_speed':
    return p * (1.0 if dz < 100 else 3.0 if dz >= 1100 else
                1 + 0.002 * (dz - 100))
  return p


def index_of(case, init_times, lead_times):
  init, lead = gen.times_of(case['data'])
  return ([int(np.where(init == x)[0][0]) for x in init_times],
          [int(np.where(lead == x)[0][0]) for x in lead_times])


class SparseSim(loader_base.DataLoader):
  """Sparse observations (or forecasts at observation points) from a case."""

  def __init__(self, case, side, **kw):
    super().__init__(**kw)
    self.case = case
    self.side = side
    self.obs, _ = observations(case)

  def _load_chunk_from_source(self, init_times, lead_times=None):
    case, d = self.case, self.case['data']
    ii, ll = index_of(case, init_times, lead_times)
    init, lead = gen.times_of(d)
    rows = [o for i in ii for l in ll for o in self.obs[i, l]]
    n = len(rows)
    st = [STATIONS[o['s']] for o in rows]
    it = np.array([init[o['i']] for o in rows], 'datetime64[ns]')
    lt = np.array([lead[o['l']] for o in rows], 'timedelta64[ns]')
    names = np.empty(n, object)
    names[:] = [s[0] for s in st]
    f = lambda k: np.array([np.nan if s[k] is None else s[k] for s in st],
                           'float64')
    coords = dict(
        index=('index', np.arange(n)), init_time=('index', it),
        lead_time=('index', lt), valid_time=('index', it + lt),
        latitude=('index', f(1)), longitude=('index', f(2)),
        elevation=('index', f(3)), stationName=('index', names),
        lead_seconds=('index', (lt.astype('int64') // 10**9)))
    out = {}
    for v, name in enumerate(d['vars']):
      if v == 1 and case['missing_var'] and ll[0] < case['missing_var']:
        continue
      vals = np.array([o[self.side][v] for o in rows], d['dtype'])
      out[name] = xr.DataArray(vals, dims=['index'], coords=coords)
    if case['flow'] == 'split' and self.side == 't':
      return {k: v.dropna('index') for k, v in out.items()}
    if case['flow'] == 'split':
      return out
    return xr.Dataset(out)


class KeptSim(loader_base.DataLoader):
  """Blocks whose station labels are those present in the requested times."""

  def __init__(self, case, side, **kw):
    super().__init__(**kw)
    self.case = case
    self.side = side
    self.obs, _ = observations(case)

  def _load_chunk_from_source(self, init_times, lead_times=None):
    case, d = self.case, self.case['data']
    ii, ll = index_of(case, init_times, lead_times)
    labels = station_labels(case)
    present = []
    for i in ii:
      for l in ll:
        for o in self.obs[i, l]:
          if o['s'] not in present:
            present.append(o['s'])
    if d['order'] % 3 == 0:
      present.sort()
    n = len(present)
    lab = np.array([labels[s] for s in present],
                   {'str': object, 'int': 'int64', 'float': 'float64'}[
                       case['labels']])
    coords = dict(init_time=np.asarray(init_times), lead_time=np.asarray(lead_times),
                  station=('station', lab))
    if case['nonindex'] in ('elev', 'vary'):
      el = np.array([STATIONS[s][3] or 0.0 for s in present], float)
      if case['nonindex'] == 'elev' or not ii or ii[0] % 2 == 0:
        coords['elevation'] = ('station', el)
    if case['nonindex'] == 'launch':
      coords['launch'] = ('station', np.array(
          [gen.T0 + s * gen.H for s in present], 'datetime64[ns]'))
    out = {}
    for v, name in enumerate(d['vars']):
      x = np.full((len(ii), len(ll), n), np.nan, d['dtype'])
      for a, i in enumerate(ii):
        for b, l in enumerate(ll):
          for o in self.obs[i, l]:
            x[a, b, present.index(o['s'])] = o[self.side][v]
      if self.side == 'p' and case['masked']:
        x = np.nan_to_num(x, nan=0.25)  # forecasts are complete
      dims = ['init_time', 'lead_time', 'station']
      da = xr.DataArray(x, dims=dims, coords=coords)
      if d['order'] % 4 == 1:
        da = da.transpose('station', 'lead_time', 'init_time')
      out[name] = da
    return out if d['order'] % 2 else xr.Dataset(out)


class ElevationWeight(weighting.Weighting):
  """Quarter-valued weights from the station or its elevation."""

  def __init__(self, case):
    self.case = case

  def weights(self, statistic):
    if self.case['family'] == 'sparse':
      x = statistic['elevation'].fillna(3.0)
      return ((x % 7) + 1) / 4
    labels = station_labels(self.case)
    vals = [station_weight(self.case, labels.index(x))
            for x in statistic['station'].values.tolist()]
    return xr.DataArray(np.array(vals, float), dims=['station'],
                        coords={'station': statistic['station']})


def station_weight(case, s):
  if case['family'] == 'sparse':
    e = STATIONS[s][3]
    return (((3.0 if e is None else e) % 7) + 1) / 4
  return (s + 1) / 4


def make_loaders(case):
  from weatherbenchX import interpolations
  from weatherbenchX.data_loaders import xarray_loaders as xl
  cls = SparseSim if case['family'] == 'sparse' else KeptSim
  t = cls(case, 't', add_nan_mask=case['masked'])
  if case['flow'] in ('interp', 'altitude'):
    d = case['data']
    init, lead = gen.times_of(d)
    _, grid = observations(case)
    dims = ['init_time', 'lead_time', 'latitude', 'longitude']
    coords = dict(init_time=init, lead_time=lead, latitude=LATS, longitude=LONS)
    ds = xr.Dataset({v: xr.DataArray(grid[k].astype(d['dtype']), dims=dims,
                                     coords=coords)
                     for k, v in enumerate(d['vars'])})
    interp = interpolations.InterpolateToReferenceCoords('nearest')
    if case['flow'] == 'altitude':
      interp = interpolations.GridToSparseWithAltitudeAdjustment(
          'nearest', xr.DataArray(GRID_ELEV, dims=dims[2:], coords=dict(
              latitude=LATS, longitude=LONS)))
    p = xl.PredictionsFromXarray(ds=ds, rename_dimensions=None,
                                 interpolation=interp)
  else:
    p = cls(case, 'p')
  return p, t


def make_bin(b):
  from weatherbenchX import binning as bn
  table = dict(
      station=lambda: bn.ByExactCoord('stationName'),
      station_global=lambda: bn.ByExactCoord('stationName', add_global_bin=True),
      lead=lambda: bn.ByExactCoord('lead_time'),
      lead_global=lambda: bn.ByExactCoord('lead_time', add_global_bin=True),
      init=lambda: bn.ByExactCoord('init_time'),
      init_global=lambda: bn.ByExactCoord('init_time', add_global_bin=True),
      valid=lambda: bn.ByExactCoord('valid_time'),
      init_hour=lambda: bn.ByTimeUnit('hour', 'init_time'),
      init_hour_global=lambda: bn.ByTimeUnit('hour', 'init_time', True),
      lead_hour=lambda: bn.ByTimeUnit('hour', 'lead_time'),
      valid_hour=lambda: bn.ByTimeUnit('hour', 'valid_time'),
      valid_hour_global=lambda: bn.ByTimeUnit('hour', 'valid_time', True),
      valid_doy=lambda: bn.ByTimeUnit('dayofyear', 'valid_time'),
      lead_seconds=lambda: bn.ByTimeUnitFromSeconds('hour', 'lead_seconds'),
      elev=lambda: bn.ByCoordBins('elevation', np.array(ELEV_EDGES)),
      elev_global=lambda: bn.ByCoordBins('elevation', np.array(ELEV_EDGES), True),
      sets=lambda: bn.BySets({'ab': ['KA', 'KB'], 'none': ['QQ']},
                             'stationName', bin_dim_name='stationset'),
      sets_full=None, regions=lambda: bn.Regions(gen.REGIONS),
      latbins=lambda: bn.LatitudeBins(60), lonbins=lambda: bn.LongitudeBins(90),
      hoursets=lambda: bn.ByTimeUnitSets({'am': [0, 6], 'pm': [12, 18]}, 'hour',
                                         'init_time', add_global_bin=True))
  return table[b]()


def make_agg(case):
  from weatherbenchX import aggregation
  from weatherbenchX import binning as bn
  bins = []
  for b in case['bins']:
    if b == 'sets_full':
      bins.append(bn.BySets(
          {'ab': ['KA', 'KB'], 'x': 'X1'},
          'stationName' if case['family'] == 'sparse' else 'station',
          bin_dim_name='stationset', add_set_complements=True,
          add_global_bin=True))
    else:
      bins.append(make_bin(b))
  return aggregation.Aggregator(
      reduce_dims=list(case['reduce']), bin_by=bins or None,
      weigh_by=[ElevationWeight(case)] if case['weight'] else None,
      masked=case['masked'], skipna=case['skipna'])


# -------------------------------------------------------------- reference ----
def dt(ns):
  import datetime
  return datetime.datetime.fromtimestamp(ns // 10**9, datetime.timezone.utc)


def bin_labels(b, o, case):
  """Labels of the bins that hold one observation."""
  d = case['data']
  init, lead = gen.times_of(d)
  it = int(init[o['i']].astype('datetime64[ns]').astype('int64'))
  lt = int(lead[o['l']].astype('timedelta64[ns]').astype('int64'))
  name, lat, lon, elev = STATIONS[o['s']]
  glob = ['global'] if b.endswith('_global') else []
  b = b.removesuffix('_global')
  if b == 'station':
    return [name] + glob
  if b == 'lead':
    return [('T', lt)] + glob
  if b == 'init':
    return [('T', it)] + glob
  if b == 'valid':
    return [('T', it + lt)]
  if b == 'init_hour':
    return [float(dt(it).hour)] + glob
  if b == 'lead_hour':
    return [float(lt // HOUR)] + glob
  if b == 'lead_seconds':
    return [float(lt // HOUR)] if lt // HOUR < 24 else []
  if b == 'valid_hour':
    return [float(dt(it + lt).hour)] + glob
  if b == 'valid_doy':
    return [float(dt(it + lt).timetuple().tm_yday)]
  if b == 'elev':
    return [float(lo) for lo, hi in zip(ELEV_EDGES, ELEV_EDGES[1:])
            if elev is not None and lo <= elev < hi] + glob
  if b == 'sets':
    return ['ab'] if name in ('KA', 'KB') else []
  if b == 'sets_full':
    return ['ab' if name in ('KA', 'KB') else 'not_in_ab',
            'x' if name == 'X1' else 'not_in_x', 'global']
  if b == 'hoursets':
    return ['am' if dt(it).hour in (0, 6) else 'pm', 'global']
  from vsim import ref
  return [x if isinstance(x, str) else float(x) for x in ref.labels(
      b, None, dict(latitude=lat, longitude=lon, init_time=it, lead_time=lt),
      None)]


FIXED = dict(
    lead_seconds=[float(h) for h in range(24)],
    elev=[float(x) for x in ELEV_EDGES[:-1]],
    elev_global=[float(x) for x in ELEV_EDGES[:-1]] + ['global'],
    sets=['ab', 'none'], sets_full=['ab', 'not_in_ab', 'x', 'not_in_x', 'global'],
    regions=list(gen.REGIONS), latbins=[-90.0, -30.0, 30.0],
    lonbins=[0.0, 90.0, 180.0, 270.0], hoursets=['am', 'pm', 'global'])


def reference(case, stat, v):
  """{labels: [weighted sum, sum of weights]} over exactly the observations."""
  obs, _ = observations(case)
  d = case['data']
  init, lead = gen.times_of(d)
  kept = ([] if case['family'] == 'sparse' else
          [x for x in ('init_time', 'lead_time', 'station')
           if x not in case['reduce']])
  labels = station_labels(case)
  out = {}
  units = []
  for (i, l), rows in obs.items():
    if v == 1 and case['missing_var'] and l < case['missing_var']:
      continue
    # In this flow missing observations are not handed over at all.
    units += [o for o in rows if case['flow'] != 'split' or o['t'][v] == o['t'][v]]
  discovered = [set() for _ in case['bins']]
  for o in units:
    for k, b in enumerate(case['bins']):
      discovered[k].update(bin_labels(b, o, case))
  axes = []
  for k, b in enumerate(case['bins']):
    axes.append(FIXED.get(b) or sorted(discovered[k], key=str))
  for o in units:
    key = []
    for x in kept:
      if x == 'init_time':
        key.append(('T', int(init[o['i']].astype('datetime64[ns]').astype('int64'))))
      elif x == 'lead_time':
        key.append(('T', int(lead[o['l']].astype('timedelta64[ns]').astype('int64'))))
      else:
        s = labels[o['s']]
        key.append(s if isinstance(s, str) else float(s))
    key = tuple(key)
    for combo in itertools.product(*axes):
      out.setdefault(key + combo, [0.0, 0.0])
    x = FN[stat](o['p'][v], o['t'][v])
    if o['t'][v] != o['t'][v] and case['masked']:
      continue
    if x != x and case['skipna']:
      continue
    w = station_weight(case, o['s']) if case['weight'] else 1.0
    for combo in itertools.product(*[bin_labels(b, o, case)
                                     for b in case['bins']]):
      a = out[key + combo]
      a[0] += w * x
      a[1] += w
  return kept, out


def normal(values, kind):
  out = []
  for x in values:
    if kind in 'mM':
      out.append(('T', int(np.asarray(x).astype('int64'))))
      continue
    if hasattr(x, 'item'):
      x = x.item()
    if isinstance(x, bytes):
      x = x.decode()
    out.append(x if isinstance(x, str) else float(x))
  return out


def match(got, want):
  """Same label; numbers and times may be spelled as text (global bins)."""
  if got == want:
    return True
  if isinstance(got, str) and not isinstance(want, str):
    if isinstance(want, tuple):
      for unit, dtp in (('M8[ns]', 'datetime64[ns]'), ('m8', 'timedelta64[ns]')):
        try:
          if unit[0] == 'M':
            return int(np.datetime64(got, 'ns').astype('int64')) == want[1]
        except ValueError:
          pass
      digits = ''.join(c for c in got.split(' ')[0] if c.isdigit())
      if not digits:
        return False
      n = int(digits)
      unit = got.split(' ')[1] if ' ' in got else 'nanoseconds'
      # numpy shortens such labels to 21 characters.
      mult = [m for u, m in dict(
          nanoseconds=1, microseconds=10**3, milliseconds=10**6,
          seconds=10**9, minutes=60 * 10**9, hours=HOUR,
          days=24 * HOUR).items() if unit and u.startswith(unit)]
      mult = mult[0] if len(mult) == 1 else None
      return mult is not None and n * mult == want[1]
    try:
      return float(got) == want
    except ValueError:
      return False
  return False


def view(da, dims):
  """Cells of a DataArray as ({dim: labels}, values) in the given dim order."""
  da = da.transpose(*dims)
  cols = []
  for x in dims:
    c = da[x].values
    cols.append(normal(c, c.dtype.kind))
  return cols, np.asarray(da.values, float)


def compare_one(da, case, stat, v, what, weights=False):
  kept, want = reference(case, stat, v)
  if not want:
    if np.isfinite(np.asarray(da.values, float)).any() and not weights:
      raise core.Violation('value-from-nothing', f'{what} has values {da.values} '
                           'although there is no observation')
    return
  dims = kept + [BIN_DIM[b] for b in case['bins']]
  if set(da.dims) != set(dims):
    raise core.Violation('dims', f'{what}: dims {da.dims} instead of {dims}')
  cols, vals = view(da, dims)
  tol = dict(rtol=2e-4, atol=2e-5) if case['data']['dtype'] == 'float32' else dict(
      rtol=1e-8, atol=1e-8)
  # Position of every wanted label.
  used = np.zeros(vals.shape, bool)
  pos = [{} for _ in dims]
  for key, (a, b) in want.items():
    idx = []
    for k, lab in enumerate(key):
      if lab not in pos[k]:
        hits = [n for n, x in enumerate(cols[k]) if match(x, lab)]
        if len(hits) > 1:
          raise core.Violation('split-entry', f'{what}: {dims[k]} has label {lab} '
                               f'{len(hits)} times')
        pos[k][lab] = hits[0] if hits else None
      if pos[k][lab] is None:
        raise core.Violation('dropped-entry', f'{what}: no label {lab} along '
                             f'{dims[k]} ({cols[k]})')
      idx.append(pos[k][lab])
    idx = tuple(idx)
    used[idx] = True
    if weights:
      w = b
    elif b:
      w = math.sqrt(a / b) if stat == 'RMSE' else a / b
    else:
      w = float('nan')
    g = float(vals[idx])
    if (g != g) != (w != w) or (w == w and abs(g - w) > tol['atol'] +
                                tol['rtol'] * abs(w)):
      raise core.Violation('wrong-entry', f'{what}: {g!r} instead of {w!r} at '
                           f'{dict(zip(dims, key))}')
  extra = vals[~used]
  if extra.size and (np.isfinite(extra) & (extra != 0 if weights else True)).any():
    raise core.Violation('value-from-nothing', f'{what}: values {extra} at entries '
                         'without observations')


def execute(case, ch, st):
  from weatherbenchX import aggregation
  from weatherbenchX.metrics import base as mb
  np.seterr(all='ignore')
  d = case['data']
  metrics = gen.make_metrics(case['metrics'], d)
  agg = make_agg(case)
  n_obs = sum(len(x) for x in observations(case)[0].values())
  with core.World(ch) as w:
    store = fsim.Storage(w)
    fsim.set_storage(store)
    pl, tl = make_loaders(case)
    state = None
    times = er.make_times(case)
    if case['mode'] == 'beam':
      # The state file cannot hold differing labels (documented), so metrics
      # only.
      er.run_job(w, case, beamsim.Plan(**case['plan']),
                 er.Recording(pl, 'P'), er.Recording(tl, 'T'), metrics, agg,
                 times, state=None)
      values = er.load_nc(store.content('/out/metrics.nc'))
    else:
      states = []
      for it, lt in ch.shuffled(list(times)):
        tc = tl.load_chunk(it, lt)
        pc = pl.load_chunk(it, lt, tc)
        states.append(agg.aggregate_statistics(
            mb.compute_unique_statistics_for_all_metrics(metrics, pc, tc)))
        w.log(f'chunk {it} {lt}')
      if d['order'] == 2:
        states.append(aggregation.AggregationState.zero())
      while len(states) > 1:
        k = 2 + ch.pick(len(states) - 1)
        part = [states.pop(ch.pick(len(states))) for _ in range(k)]
        states.append(aggregation.AggregationState.sum(part))
        w.log(f'sum {k}')
      state = states[0]
      values = er.normal_times(state.metric_values(metrics))
      w.count('probe.direct_summation')
    for m in case['metrics']:
      if m in FN:
        for v, name in enumerate(d['vars']):
          key = f'{m}.{name}'
          if key not in values:
            if not reference(case, m, v)[1]:
              continue
            raise core.Violation('dropped-variable', f'no {key} in the result')
          compare_one(values[key], case, m, v, key)
          w.count('probe.entries_checked')
    if n_obs and not case['missing_var']:
      with np.errstate(all='ignore'):
        init, lead = gen.times_of(d)
        tc = tl.load_chunk(init, lead)
        pc = pl.load_chunk(init, lead, tc)
        ws = agg.aggregate_statistics(
            mb.compute_unique_statistics_for_all_metrics(metrics, pc, tc))
        whole = ws.metric_values(metrics)
        tol = gen.tol(case['metrics'], d)
        stable = er.stable_mask(whole, ws, metrics,
                                1e-5 if tol['rtol'] > 1e-6 else 1e-11)
      whole = er.normal_times(whole)
      r = er.compare_results(values, whole, stable, **tol)
      if r:
        raise core.Violation('differs-from-whole', r)
      if state is not None:
        for part in ('sum_weights', 'sum_weighted_statistics'):
          r = er.tree_diff(getattr(state, part), getattr(ws, part), path=part,
                           **tol)
          if r:
            raise core.Violation('state-differs', r)
    w.count('probe.' + case['family'])
    w.count('flow.' + case['flow'])
    for b in case['bins']:
      w.count('bin.' + b)
    if not n_obs:
      w.count('probe.all_empty')
    per = [sum(len(observations(case)[0][i, l]) for i in a for l in b)
           for a, b in (index_of(case, *c) for c in times)]
    if n_obs and 0 in per:
      w.count('probe.some_chunks_empty')
    if case['missing_var']:
      w.count('probe.variable_missing_in_chunks')
    if case['family'] == 'kept' and 'station' not in case['reduce']:
      w.count('probe.labels_differ_along_kept_dim')
    if case['masked']:
      w.count('probe.masked')
    if case['weight']:
      w.count('probe.weighted')
  st.absorb(w)
  st.nontrivial = len(per) > 1
  st.result(repr(sorted(map(str, values))))


def shrink(case):
  import copy
  for c in er.shrink_eval(dict(case, agg=None, data=dict(
      case['data'], lat=[0, 1], lon=[0, 1], nan=[]))):
    c = copy.deepcopy(c)
    c.pop('agg')
    for k in ('lat', 'lon'):
      c['data'].pop(k)
    c['data']['nan'] = case['data']['nan']
    yield c
  for i in range(len(case['bins'])):
    c = copy.deepcopy(case)
    del c['bins'][i]
    yield c
  for k, v in (('weight', 0), ('chunks', [1, 1]), ('chunks', [None, None]),
               ('nonindex', '')):
    if case.get(k, v) != v:
      yield dict(case, **{k: v})
  for k, v in (('repeat', 0), ('order', 1), ('p_empty', 0), ('dtype', 'float64')):
    if case['data'][k] != v:
      c = copy.deepcopy(case)
      c['data'][k] = v
      yield c
