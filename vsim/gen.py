"""Synthetic evaluations described by small JSON values.

A `data` spec fixes every input value; a `metrics` list names metrics; an `agg`
spec names reduction, bins, weights and masking; everything needed to build the
real objects is here, so that checks only handle JSON.
"""
import numpy as np
import xarray as xr

H = np.timedelta64(1, 'h').astype('timedelta64[ns]')
T0 = np.datetime64('2020-02-26T00', 'ns')


# ------------------------------------------------------------------- data ----
def gen_data(rng, ens=False, level=False, small=False, max_init=6, max_lead=4):
  lats = [[-60.0, 0.0, 45.0], [-90.0, -30.0, 30.0, 90.0], [70.0, 10.0],
          [-40.0, -10.0, 20.0, 50.0]]
  lons = [[0.0, 120.0, 240.0], [0.0, 90.0, 180.0, 270.0], [10.0, 350.0],
          [-170.0, 5.0]]
  return dict(
      seed=rng.randrange(10**9),
      n_init=rng.randint(1, max_init), init_step=rng.choice([6, 12, 24, 30]),
      n_lead=rng.randint(1, max_lead), lead_step=rng.choice([6, 12, 24]),
      lead_start=rng.choice([0, 0, 6, 24]),
      lat=rng.choice(lats), lon=rng.choice(lons),
      n_level=rng.randint(1, 3) if level else 0,
      n_ens=rng.randint(2, 4) if ens else 0,
      vars=['t', 'u', 'v'][:(3 if not small else rng.randint(1, 3))],
      dtype=rng.choice(['float64', 'float64', 'float32']),
      order=rng.randrange(1000), extra=rng.choice([0, 1]),
      chunked=rng.choice([0, 0, 1]))


def times_of(d):
  init = T0 + np.arange(d['n_init']) * d['init_step'] * H
  lead = (d['lead_start'] + np.arange(d['n_lead']) * d['lead_step']) * H
  if d.get('shuffle'):  # requested in arbitrary order
    rs = np.random.RandomState(d['shuffle'])
    init, lead = rs.permutation(init), rs.permutation(lead)
  return init, lead


def _values(rs, shape, d):
  # Quarters: sums and products of a few thousand are exact in float64.
  x = rs.randint(-12, 13, size=shape) / 4.0
  return x.astype(d['dtype'])


def make_data(d):
  """Returns (predictions ds, targets ds) with loader-ready names."""
  rs = np.random.RandomState(d['seed'] % (2**32 - 1))
  init, lead = times_of(d)
  # The sources hold more times than the evaluation asks for.
  init_all, lead_all = init, lead
  if d.get('extra'):
    init_all = np.concatenate([init, [init.max() + 7 * 24 * H]])
    lead_all = np.concatenate([lead, [lead.max() + 5 * 24 * H]])
  valid = np.unique((init_all[:, None] + lead_all[None]).ravel())
  lat, lon = np.array(d['lat']), np.array(d['lon'])
  coords = dict(init_time=init_all, lead_time=lead_all, latitude=lat,
                longitude=lon, valid_time=valid)
  pd_, td = ['init_time', 'lead_time'], ['valid_time']
  if d.get('n_ens'):
    coords['number'] = np.arange(d['n_ens'])
    pd_.append('number')
  if d.get('n_level'):
    coords['level'] = np.array([850, 500, 300][:d['n_level']])
    pd_.append('level')
    td.append('level')
  pd_ += ['latitude', 'longitude']
  td += ['latitude', 'longitude']
  rp = np.random.RandomState(d['order'])
  if d['order'] % 3 == 0:
    rp.shuffle(pd_)
  if d['order'] % 4 == 0:
    rp.shuffle(td)
  p, t = {}, {}
  for v in d['vars']:
    p[v] = xr.DataArray(_values(rs, [len(coords[c]) for c in pd_], d), dims=pd_,
                        coords={c: coords[c] for c in pd_})
    t[v] = xr.DataArray(_values(rs, [len(coords[c]) for c in td], d), dims=td,
                        coords={c: coords[c] for c in td})
  p, t = xr.Dataset(p), xr.Dataset(t)
  for spec in d.get('nan', []):
    poke_nan(p if spec['in'] == 'p' else t, spec)
  return p, t


def poke_nan(ds, spec):
  """Sets NaN at one position (index per dim taken modulo its size)."""
  da = ds[spec['var']]
  idx = tuple(spec['idx'].get(dim, 0) % da.sizes[dim] if dim in spec['idx']
              else slice(None) for dim in da.dims)
  vals = da.values.copy()
  vals[idx] = np.nan
  ds[spec['var']] = da.copy(data=vals)


def climatology(d, quantiles=False):
  """Day-of-year/hour climatology covering the valid times of the spec."""
  rs = np.random.RandomState((d['seed'] + 17) % (2**32 - 1))
  lat, lon = np.array(d['lat']), np.array(d['lon'])
  doy = np.arange(55, 85)
  hour = np.array([0, 6, 12, 18])
  dims = ['dayofyear', 'hour', 'latitude', 'longitude']
  coords = dict(dayofyear=doy, hour=hour, latitude=lat, longitude=lon)
  out = {}
  for v in d['vars']:
    base = rs.randint(-8, 9, size=[len(coords[c]) for c in dims]) / 4.0
    if quantiles:
      w = rs.randint(1, 9, size=base.shape) / 4.0
      out[v] = xr.DataArray(np.stack([base - w, base + w]),
                            dims=['quantile'] + dims,
                            coords=dict(quantile=[0.1, 0.9], **coords))
    else:
      out[v] = xr.DataArray(base, dims=dims, coords=coords)
  return xr.Dataset(out)


def seeps_climatology(d):
  rs = np.random.RandomState((d['seed'] + 23) % (2**32 - 1))
  lat, lon = np.array(d['lat']), np.array(d['lon'])
  doy, hour = np.arange(55, 85), np.array([0, 6, 12, 18])
  shape = (len(doy), len(hour), len(lat), len(lon))
  dims = ['dayofyear', 'hour', 'latitude', 'longitude']
  coords = dict(dayofyear=doy, hour=hour, latitude=lat, longitude=lon)
  p1 = rs.choice([0.05, 0.25, 0.5, 0.75, 0.95], size=(len(lat), len(lon)),
                 p=[.1, .3, .3, .2, .1])
  out = {}
  for v in d['vars']:
    out[f'{v}_seeps_dry_fraction'] = xr.DataArray(
        np.broadcast_to(p1, shape).copy(), dims=dims, coords=coords)
    out[f'{v}_seeps_threshold'] = xr.DataArray(
        rs.randint(1, 9, size=shape) / 4000.0, dims=dims, coords=coords)
  return xr.Dataset(out)


# ---------------------------------------------------------------- metrics ----
DET = ['Error', 'AbsoluteError', 'SquaredError', 'PredictionPassthrough',
       'TargetPassthrough', 'RMSE', 'WindSE', 'WindRMSE', 'ACC', 'Activity',
       'Exceed', 'CSI', 'Accuracy', 'Recall', 'FAR', 'Precision', 'F1', 'FB',
       'HSS', 'ETS', 'SEDI', 'RPS', 'Reliability', 'SEEPS', 'FSS', 'BinsBias',
       'InlineRMSE', 'ReLUMAE', 'ShiftMAE', 'SelectMAE', 'SubRMSE',
       'REV', 'FSS1', 'Exceed1', 'RawP', 'RawT']
ENS = ['CRPS', 'CRPSsort', 'CRPSunfair', 'CRPSskipna', 'EnsVar', 'UEMRMSE', 'USSR',
       'ERMV', 'EnsExceed', 'ERPS', 'RankHist', 'EnsMeanRMSE', 'EnsAvgMAE',
       'EnsREV', 'EnsReliability', 'Confident', 'Covered', 'Jaccard', 'Opport',
       'Opport2', 'Wasserstein', 'CRPSDist', 'ERPSunfair', 'StackRMSE',
       'PerMember']
LEVEL_OK = {'Error', 'AbsoluteError', 'SquaredError', 'PredictionPassthrough',
            'TargetPassthrough', 'RMSE', 'Exceed', 'CSI', 'Accuracy', 'RPS',
            'BinsBias', 'InlineRMSE', 'ReLUMAE', 'ShiftMAE', 'SubRMSE', 'CRPS',
            'EnsVar', 'EnsMeanRMSE', 'EnsAvgMAE', 'RankHist',
            'FSS1', 'RawP', 'RawT'}
LEVEL = ['LevelRename', 'LevelSelect']
NEED_UV = {'WindSE', 'WindRMSE'}
# Statistics whose values are not exact binary fractions.
LOOSE = {'FSS', 'FSS1', 'SEDI', 'Wasserstein'}


def raw_statistic(name):
  """A user's statistic that hands out its input as it is."""
  from vsim import usercode  # pylint: disable=g-import-not-at-top
  return usercode.RawP() if name == 'RawP' else usercode.RawT()


def make_metric(name, d):
  # pylint: disable=g-import-not-at-top
  from weatherbenchX.metrics import categorical as c
  from weatherbenchX.metrics import deterministic as m
  from weatherbenchX.metrics import probabilistic as p
  from weatherbenchX.metrics import spatial as s
  from weatherbenchX.metrics import wrappers as w
  if name in ('RawP', 'RawT'):
    return raw_statistic(name)
  v0 = d['vars'][0]
  thr = [-0.5, 0.75]
  binary = lambda which='both': w.ContinuousToBinary(
      which=which, threshold_value=thr, threshold_dim='threshold')
  prob = lambda which: w.Inline(
      which=which, transform_fn=_to_prob, unique_name_suffix='prob')
  one = w.ContinuousToBinary(which='targets', threshold_value=0.25,
                             threshold_dim='tt')
  tbin = w.WrappedMetric
  plain = dict(Error=m.Error, AbsoluteError=m.AbsoluteError,
               SquaredError=m.SquaredError,
               PredictionPassthrough=m.PredictionPassthrough,
               TargetPassthrough=m.TargetPassthrough, RMSE=m.RMSE)
  if name in plain:
    return plain[name]()
  scores = dict(CSI=c.CSI, Accuracy=c.Accuracy, Recall=c.Recall,
                FAR=c.FalseAlarmRate, Precision=c.Precision, F1=c.F1Score,
                FB=c.FrequencyBias, HSS=c.HSS, ETS=c.ETS, SEDI=c.SEDI)
  if name in scores:
    return tbin(scores[name](), [binary()])
  if name == 'WindSE':
    return m.WindVectorSquaredError(['u'], ['v'], ['wind'])
  if name == 'WindRMSE':
    return m.WindVectorRMSE(['u'], ['v'], ['wind'])
  if name == 'ACC':
    return m.ACC(climatology(d))
  if name == 'Activity':
    return m.PredictionActivity(climatology(d))
  if name == 'Exceed':
    return m.ErrorExceedance(thresholds=_thr([0.5, 1.5], 'exc_threshold'))
  if name == 'Exceed1':
    return m.ErrorExceedance(thresholds=[1.0])
  if name == 'RPS':
    return tbin(c.RankedProbabilityScore('cdf_bin'), [w.ContinuousToCDF(
        'both', threshold_values=[-1.0, 0.0, 1.0], threshold_dim='cdf_bin')])
  if name == 'Reliability':
    return tbin(c.Reliability(bin_values=(-np.inf, .25, .5, .75, 1.)),
                [prob('predictions'), _bin_target(w)])
  if name == 'SEEPS':
    return c.SEEPS(variables=list(d['vars']), climatology=seeps_climatology(d))
  if name in ('FSS', 'FSS1'):
    size = [1, 3] if name == 'FSS' else 1
    return tbin(s.FSS(neighborhood_size_in_pixels=size,
                      wrap_longitude=(name == 'FSS')),
                [binary()])
  if name == 'BinsBias':
    return tbin(m.Error(), [w.ContinuousToBins(
        'both', bin_values=[-np.inf, -1.0, 0.5, np.inf], bin_dim='vbin')])
  if name == 'InlineRMSE':
    return tbin(m.RMSE(), [w.Inline('both', transform_fn=_double,
                                    unique_name_suffix='double')])
  if name == 'ReLUMAE':
    return tbin(m.AbsoluteError(), [w.ReLU('both')])
  if name == 'ShiftMAE':
    return tbin(m.AbsoluteError(), [w.ShiftAlongNewDim(
        'predictions', shift_value=[0.0, 0.5], shift_dim='shift',
        unique_name_suffix='sh')])
  if name == 'LevelRename':
    return tbin(m.AbsoluteError(), [w.Rename('both', {'level': 'plev'})])
  if name == 'LevelSelect':
    return tbin(m.RMSE(), [w.Select('both', isel={'level': -1})])
  if name == 'LevelStack':
    return tbin(m.SquaredError(), [w.StackToNewDimension(
        'both', ['latitude', 'level'], 'column')])
  if name == 'SelectMAE':
    return tbin(m.AbsoluteError(), [w.Select(
        'both', sel={'longitude': d['lon'][:2]})])
  if name == 'SubRMSE':
    return w.SubselectVariables(m.RMSE(), [v0])
  if name == 'REV':
    return tbin(p.RelativeEconomicValue(
        probability_thresholds=np.array([.25, .75]),
        cost_loss_ratios=np.array([.2, .4, .6]), statistic_suffix='q'),
                [prob('predictions'), _bin_target(w)])
  # -- ensembles --
  if name == 'CRPS':
    return p.CRPSEnsemble(ensemble_dim='number')
  if name == 'CRPSsort':
    return p.CRPSEnsemble(ensemble_dim='number', use_sort=True)
  if name == 'CRPSunfair':
    return p.CRPSEnsemble(ensemble_dim='number', fair=False)
  if name == 'CRPSskipna':
    return p.CRPSEnsemble(ensemble_dim='number', skipna_ensemble=True)
  if name == 'EnsVar':
    return p.EnsembleVariance(ensemble_dim='number')
  if name == 'UEMRMSE':
    return p.UnbiasedEnsembleMeanRMSE(ensemble_dim='number')
  if name == 'USSR':
    return p.UnbiasedSpreadSkillRatio(ensemble_dim='number')
  if name == 'ERMV':
    return p.EnsembleRootMeanVariance(ensemble_dim='number')
  if name == 'EnsExceed':
    return p.EnsembleErrorExceedance(thresholds=_thr([0.5, 1.5], 'exc_threshold'),
                                     ensemble_dim='number')
  if name in ('ERPS', 'ERPSunfair'):
    t = xr.Dataset({v: _thr([-1.0, 0.0, 1.0], 'rps_bin') for v in d['vars']})
    return p.EnsembleRankedProbabilityScore(
        t, t, bin_dim='rps_bin', unique_name_suffix='rps',
        ensemble_dim='number', fair=(name == 'ERPS'))
  if name == 'RankHist':
    return p.RankHistogram(ensemble_dim='number')
  if name == 'EnsMeanRMSE':
    return tbin(m.RMSE(), [w.EnsembleMean('predictions', ensemble_dim='number')])
  if name == 'EnsAvgMAE':
    return p.EnsembleAveragedMetric(m.AbsoluteError(), ensemble_dim='number')
  if name == 'EnsREV':
    return tbin(p.RelativeEconomicValue(
        ensemble_size=d['n_ens'], cost_loss_ratios=np.array([.2, .5])),
                [_bin_both(w), w.EnsembleMean('predictions',
                                              ensemble_dim='number')])
  if name == 'EnsReliability':
    return tbin(c.Reliability(bin_values=(-np.inf, .25, .5, .75, 1.)),
                [_bin_both(w), w.EnsembleMean('predictions',
                                              ensemble_dim='number')])
  if name == 'Confident':
    return c.Confident('number', climatology(d, True))
  if name == 'Covered':
    return c.Covered('number')
  if name == 'Jaccard':
    return c.JaccardDistant('number', climatology(d, True))
  if name == 'Opport':
    return c.Opportunism('number', climatology(d, True), True, True, True)
  if name == 'Opport2':
    return c.Opportunism('number', climatology(d, True), False, False)
  if name == 'Wasserstein':
    return tbin(p.WassersteinDistance(ensemble_dim='number'),
                [_targets_ens(w)])
  if name == 'CRPSDist':
    return tbin(p.CRPSEnsembleDistance(ensemble_dim='number'),
                [_targets_ens(w)])
  if name == 'StackRMSE':
    return tbin(m.RMSE(), [w.EnsembleMean('predictions', ensemble_dim='number'),
                           w.ReLU('predictions')])
  if name == 'PerMember':
    return m.AbsoluteError()
  raise KeyError(name)


def _thr(vals, dim='threshold'):
  return xr.DataArray(vals, dims=[dim], coords={dim: vals})


def _to_prob(x):
  return (x + 3.0) / 6.0


def _double(x):
  return x * 2.0 + 1.0


def _gt(x):
  return (x > 0.25).where(~np.isnan(x)).astype(np.float32)


def _two(x):
  return xr.concat([x, x + 0.5, x - 1.0], dim='number')


def _bin_target(w):
  return w.Inline('targets', transform_fn=_gt, unique_name_suffix='gt')


def _bin_both(w):
  return w.Inline('both', transform_fn=_gt, unique_name_suffix='gt')


def _targets_ens(w):
  return w.Inline('targets', transform_fn=_two, unique_name_suffix='two')


# Metrics whose results carry different labels along a common dimension: the
# saved state (one Dataset) is documented not to support them together.
CLASH = [{'REV', 'CSI', 'Accuracy', 'Recall', 'FAR', 'Precision', 'F1', 'FB',
          'HSS', 'ETS', 'SEDI', 'FSS', 'FSS1'}]


def clashing(names, d):
  names = set(names)
  if 'SelectMAE' in names and len(names) > 1 and len(d['lon']) > 2:
    return True
  if 'REV' in names and names & (CLASH[0] - {'REV'}):
    return True
  return bool(names & {'LevelSelect'}) and len(names) > 1


def gen_metrics(rng, d, k=None):
  pool = (ENS if d.get('n_ens') else DET)
  pool = [n for n in pool if not (n in NEED_UV and len(d['vars']) < 3)]
  if d.get('n_level'):
    pool = [n for n in pool if n in LEVEL_OK] + LEVEL
  k = k or rng.randint(1, 4)
  out = rng.sample(pool, min(k, len(pool)))
  if 'LevelSelect' in out:
    out = ['LevelSelect']
  return out


def make_metrics(names, d):
  return {n: make_metric(n, d) for n in names}


# ------------------------------------------------------------ aggregation ----
def gen_agg(rng, d, bins=True, weights=True):
  reduce = ['init_time', 'latitude', 'longitude']
  style = rng.randrange(6)
  if style == 0:
    reduce = ['latitude', 'longitude']
  elif style == 1:
    reduce = ['init_time', 'lead_time', 'latitude', 'longitude']
  elif style == 2:
    reduce = ['init_time', 'longitude']
  elif style == 3:
    reduce = ['init_time']
  if d.get('n_level') and rng.random() < 0.3:
    reduce.append('level')
  spec = dict(reduce=reduce, bins=[], weights=[], masked=False, skipna=False)
  if weights and rng.random() < 0.6:
    spec['weights'].append(rng.choice(['area', 'area_raw']))
  if bins:
    pool = []
    if 'latitude' in reduce and 'longitude' in reduce:
      pool += ['regions', 'landsea', 'landsea_global', 'regions_land']
    if 'latitude' in reduce:
      pool += ['latbins']
    if 'longitude' in reduce:
      pool += ['lonbins', 'sets_lon']
    if 'init_time' in reduce:
      pool += ['init_hour', 'init_hour_global', 'init_sets', 'init_day']
    if 'lead_time' in reduce:
      pool += ['lead_hour', 'lead_sets']
    if {'init_time', 'lead_time'} <= set(reduce):
      pool += ['valid_hour']
    n = rng.choice([0, 0, 1, 1, 2])
    names = rng.sample(pool, min(n, len(pool)))
    # Bin dimensions must differ.
    seen = set()
    for b in names:
      dim = BIN_DIM[b]
      if dim not in seen:
        seen.add(dim)
        spec['bins'].append(b)
  return spec


BIN_DIM = dict(regions='region', regions_land='region', landsea='land_sea',
               landsea_global='land_sea', latbins='latitude_bins',
               lonbins='longitude_bins', sets_lon='lonset',
               init_hour='init_time_hour', init_hour_global='init_time_hour',
               init_day='init_time_dayofyear', lead_hour='lead_time_hour',
               init_sets='init_time_hour_sets', lead_sets='lead_time_hour_sets',
               valid_hour='valid_time_hour')
REGIONS = {'all': ((-90, 90), (0, 360)), 'north': ((0, 90), (0, 360)),
           'wrap': ((-50, 50), (300, 60)), 'none': ((1, 2), (1, 2))}


def land_fraction(d):
  rs = np.random.RandomState((d['seed'] + 31) % (2**32 - 1))
  return xr.DataArray(
      rs.choice([0.0, 0.3, 0.5, 1.0], size=(len(d['lat']), len(d['lon']))),
      dims=['latitude', 'longitude'],
      coords=dict(latitude=np.array(d['lat']), longitude=np.array(d['lon'])))


def make_bin(name, d):
  from weatherbenchX import binning as b  # pylint: disable=g-import-not-at-top
  if name == 'regions':
    return b.Regions(REGIONS)
  if name == 'regions_land':
    return b.Regions(REGIONS, land_sea_mask=land_fraction(d) >= 0.5)
  if name == 'landsea':
    return b.LandSea(land_fraction(d))
  if name == 'landsea_global':
    return b.LandSea(land_fraction(d), include_global_mask=True)
  if name == 'latbins':
    return b.LatitudeBins(60)
  if name == 'lonbins':
    return b.LongitudeBins(90)
  if name == 'sets_lon':
    return b.BySets({'a': d['lon'][:1], 'b': d['lon'][:2]}, 'longitude',
                    bin_dim_name='lonset', add_set_complements=True,
                    add_global_bin=True)
  if name == 'init_hour':
    return b.ByTimeUnit('hour', 'init_time')
  if name == 'init_hour_global':
    return b.ByTimeUnit('hour', 'init_time', add_global_bin=True)
  if name == 'init_day':
    return b.ByTimeUnit('dayofyear', 'init_time')
  if name == 'lead_hour':
    return b.ByTimeUnit('hour', 'lead_time')
  if name == 'valid_hour':
    return b.ByTimeUnit('hour', 'valid_time')
  if name == 'init_sets':
    return b.ByTimeUnitSets({'am': [0, 6], 'pm': [12, 18]}, 'hour', 'init_time',
                            add_global_bin=True)
  if name == 'lead_sets':
    return b.ByTimeUnitSets({'short': [0, 6, 12], 'd1': [24]}, 'hour',
                            'lead_time')
  raise KeyError(name)


def make_agg(spec, d):
  from weatherbenchX import aggregation, weighting
  ws = []
  for w in spec['weights']:
    ws.append(weighting.GridAreaWeighting(return_normalized=(w == 'area')))
  return aggregation.Aggregator(
      reduce_dims=list(spec['reduce']),
      bin_by=[make_bin(b, d) for b in spec['bins']] or None,
      weigh_by=ws or None, masked=spec['masked'], skipna=spec['skipna'])


VALID_TIME_OK = {'Error', 'AbsoluteError', 'SquaredError', 'TargetPassthrough',
                 'RMSE', 'SubRMSE', 'InlineRMSE'}


def fit_agg(agg, metrics):
  """Drops bins that the statistics have no coordinate for."""
  if not set(metrics) <= VALID_TIME_OK:
    agg['bins'] = [b for b in agg['bins'] if b != 'valid_hour']
  if 'SelectMAE' in metrics:
    agg['bins'] = [b for b in agg['bins']
                   if b not in ('landsea', 'landsea_global', 'regions_land')]
  if set(metrics) & set(LEVEL):  # no such dimension left to reduce
    agg['reduce'] = [r for r in agg['reduce'] if r != 'level']
  return agg


def loud_nan(d, agg, metrics):
  """Can a NaN reach the sums?  Then it is documented to spread to all bins."""
  if not d.get('nan') or agg['skipna']:
    return False
  return bool(not agg['masked'] or any(s['in'] == 'p' for s in d['nan'])
              or set(metrics) & {'FSS', 'FSS1'})


# ------------------------------------------------------------- comparison ----
def text(values):
  """Array of str from any kind of text array."""
  v = np.asarray(values)
  flat_ = [x.decode() if isinstance(x, bytes) else str(x) for x in v.ravel()]
  return np.array(flat_, 'U' if flat_ else 'U1').reshape(v.shape)


def flat(da):
  """(dims, coords, values) with dims sorted by name and labels sorted."""
  dims = sorted(map(str, da.dims))
  v = np.asarray(da.values)
  v = v.transpose([da.dims.index(x) for x in dims])
  coords = []
  for axis, dim in enumerate(dims):
    c = da.coords.get(dim)
    if c is None:
      coords.append(None)
      continue
    x = c.values
    if x.dtype.kind == 'M':
      x = x.astype('datetime64[ns]')
    elif x.dtype.kind == 'm':
      x = x.astype('timedelta64[ns]')
    elif x.dtype.kind in 'OST':
      x = text(x)
    if len(x) > 1:
      order = np.argsort(x, kind='stable')
      if (order[1:] < order[:-1]).any():
        x = x[order]
        v = np.take(v, order, axis=axis)
    coords.append(x)
  return dims, coords, v


def diff(got, want, rtol=1e-9, atol=1e-9, what='', keep=None):
  """Text describing a difference between two DataArrays, or None.

  Dimension order, entry order, attributes and non-index coordinates do not
  count; labels of index coordinates do.  `keep` (boolean array in the layout of
  `want`) selects the entries whose values count.
  """
  if set(got.dims) != set(want.dims):
    return f'{what}: dims {got.dims} instead of {want.dims}'
  dims, ca, x = flat(got)
  _, cb, y = flat(want)
  for dim, a, b in zip(dims, ca, cb):
    if (a is None) != (b is None):
      return f'{what}: coordinate {dim} present in only one'
    if a is not None:
      if len(a) != len(b) or not np.array_equal(a, b):
        return (f'{what}: coordinate {dim} is {list(a)[:12]} instead of '
                f'{list(b)[:12]}')
  if x.shape != y.shape:
    return f'{what}: shape {x.shape} instead of {y.shape}'
  x, y = np.asarray(x, float), np.asarray(y, float)
  bad = ~np.isclose(x, y, rtol=rtol, atol=atol, equal_nan=True)
  if keep is not None and not keep.all():
    bad &= flat(want.copy(data=keep))[2]
  if bad.any():
    i = tuple(int(k) for k in np.argwhere(bad)[0])
    at = {dim: str(c[k]) if c is not None else k
          for dim, c, k in zip(dims, ca, i)}
    return (f'{what}: value {float(x[i])!r} instead of {float(y[i])!r} at {at} '
            f'({int(bad.sum())} of {bad.size} differ)')
  return None


def diff_ds(got, want, rtol=1e-9, atol=1e-9):
  a, b = set(got), set(want)
  if a != b:
    return f'variables missing {sorted(b - a)} extra {sorted(a - b)}'
  for k in want:
    r = diff(got[k], want[k], rtol, atol, str(k))
    if r:
      return r
  return None


def tol(names, d):
  if d.get('dtype') == 'float32' or any(n in LOOSE for n in names):
    return dict(rtol=2e-4, atol=2e-5)
  return dict(rtol=1e-8, atol=1e-8)


def snap(obj):
  """Hashable snapshot of loaded data (values and coordinates)."""
  out = []
  for k in sorted(map(str, obj)):
    da = obj[k]
    out.append((k, da.dims, da.shape, str(da.dtype), da.values.tobytes(), tuple(
        (str(c), da.coords[c].dims, da.coords[c].values.tobytes()
         if da.coords[c].dtype != object else repr(list(da.coords[c].values)))
        for c in sorted(map(str, da.coords)))))
  return out
