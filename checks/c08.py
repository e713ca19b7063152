"""C08: a loader's answer depends on its configuration and the request only."""
import copy
import pickle

import numpy as np
import xarray as xr

from vsim import core
from vsim import evalrun as er
from vsim import gen
from vsim import zsim

H = gen.H
URL = 'zim://src/data.zarr'
KINDS = ['pred', 'pred', 'targ', 'targ', 'pers', 'clim', 'pclim']


def setup():
  er.setup()
  zsim.install()
  import weatherbenchX.interpolations  # noqa
  import dask
  import zarr
  dask.config.set(scheduler='synchronous')
  zarr.config.set({'async.concurrency': 1, 'threading.max_workers': 1})


# ------------------------------------------------------------- the source ----
def make(rng, tier, index):
  kind = rng.choice(KINDS)
  level = rng.random() < .3
  d = gen.gen_data(rng, level=level, max_init=5, max_lead=4)
  d['nan'] = []
  cfg = dict(
      kind=kind, src=rng.choice(['ds', 'ds', 'dask', 'zarr', 'zarr', 'nc']),
      naming=rng.choice(['none', 'ecmwf', 'dict']), latlon=rng.choice([0, 1]),
      rename=rng.choice([0, 0, 1]), variables=rng.choice([0, 1, 2]),
      sel=rng.choice(['', '', 'lon', 'lat']), prep=rng.choice([0, 0, 1, 1, 2]),
      proc=rng.choice([0, 0, 1, 2]), interp=rng.choice(
          ['', '', 'fixed', 'crop', 'sub', 'ref', 'multi']),
      compute=rng.choice([1, 1, 0]), mask=rng.choice([0, 0, 1]),
      values=rng.choice([0, 0, 0, 1]), shuffle=rng.choice([0, 0, 1]),
      packed=rng.choice([0, 0, 1]))
  if d['n_level'] and rng.random() < .5:
    cfg['sel'] = 'level'
  if kind in ('clim', 'pclim') and cfg['naming'] == 'ecmwf':
    cfg['naming'] = 'none' if kind == 'clim' else 'ecmwf'
  if cfg['values'] and cfg['src'] == 'dask':
    cfg['values'] = 0
  whole = rng.choice([1, 1, 0])  # 0: a variable without any value
  if rng.random() < .5:
    for _ in range(rng.randint(1, 3)):
      d['nan'].append({'in': 'p', 'var': rng.choice(d['vars']), 'idx': {
          k: rng.randrange(8) for k in ('init_time', 'lead_time', 'latitude',
                                        'valid_time', 'longitude')
          if rng.random() < .7 * whole}})
      d['nan'].append(dict(d['nan'][-1], **{'in': 't'}))
  ops = []
  n = rng.randint(3, 8 if tier == 'quick' else 16)
  for _ in range(n):
    op = rng.choice(['load'] * 5 + ['cut', 'cut', 'cut', 'bad', 'fault', 'copy',
                                    'threads', 'prepare', 'twin', 'other'])
    if op == 'fault' and cfg['src'] != 'zarr':
      op = 'cut'
    ops.append(dict(op=op, req=gen_req(rng, d, kind), at=rng.randint(1, 60),
                    exc=rng.choice(['MemoryError', 'KeyboardInterrupt', 'OSError',
                                    'ValueError', 'KeyError']),
                    reqs=[gen_req(rng, d, kind)
                          for _ in range(rng.randint(2, 3))],
                    how=rng.choice(['pickle', 'cloudpickle', 'deepcopy']),
                    handle=rng.randrange(4), other=rng.choice(
                        ['prep', 'variables', 'proc', 'sel', 'interp']),
                    seed=rng.randrange(1000)))
  ops.append(dict(op='load', req=gen_req(rng, d, kind), handle=0))
  return dict(data=d, cfg=cfg, ops=ops)


def gen_req(rng, d, kind):
  i = rng.sample(range(d['n_init']), rng.randint(1, d['n_init']))
  if rng.random() < .7:
    i.sort()
  l = rng.sample(range(d['n_lead']), rng.randint(1, d['n_lead']))
  if rng.random() < .7:
    l.sort()
  x = rng.random()
  if x < .15 and kind in ('pred', 'targ', 'clim'):
    l = None
  elif x < .3 and kind == 'pred':
    l = 'slice'
  return dict(i=i, l=l, a=rng.randrange(d['n_lead']), b=rng.randrange(d['n_lead']),
              unit=rng.choice(['ns', 'ns', 'h', 's']))


def request(d, req):
  init, lead = gen.times_of(d)
  u = req['unit']
  it = init[req['i']].astype(f'datetime64[{u}]')
  if req['l'] is None:
    return it, None
  if req['l'] == 'slice':
    a, b = sorted([req['a'], req['b']])
    return it, slice(lead[a].astype(f'timedelta64[{u}]'),
                     lead[b].astype(f'timedelta64[{u}]'))
  return it, lead[req['l']].astype(f'timedelta64[{u}]')


def standard(case):
  """The stored data under standard names."""
  d, cfg = case['data'], case['cfg']
  k = cfg['kind']
  if k == 'pred':
    ds = gen.make_data(d)[0]
  elif k in ('targ', 'pers'):
    ds = gen.make_data(d)[1]
    init, lead = gen.times_of(d)
    # The initialisation times are valid times too.
    have = ds['valid_time'].values
    more = np.setdiff1d(init, have)
    if len(more):
      rs = np.random.RandomState(d['seed'] % 1000 + 5)
      new = {}
      for v in ds:
        shape = [len(more) if x == 'valid_time' else ds.sizes[x]
                 for x in ds[v].dims]
        new[v] = (ds[v].dims, (rs.randint(-12, 13, size=shape) / 4.0).astype(
            ds[v].dtype))
      coords = {c: ds[c] for c in ds.coords if c != 'valid_time'}
      ds = xr.concat([ds, xr.Dataset(new, dict(coords, valid_time=more))],
                     'valid_time').sortby('valid_time')
  elif k == 'clim':
    ds = gen.climatology(d)
  else:  # three earlier years, every six hours from 24 February
    rs = np.random.RandomState(d['seed'] % (2**32 - 1))
    times = np.concatenate([
        np.arange(f'{y}-02-24', f'{y}-04-10', np.timedelta64(6, 'h'),
                  dtype='datetime64[h]') for y in (2016, 2017, 2018)]).astype(
                      'datetime64[ns]')
    lat, lon = np.array(d['lat']), np.array(d['lon'])
    ds = xr.Dataset({v: (('valid_time', 'latitude', 'longitude'), rs.randint(
        -12, 13, size=(len(times), len(lat), len(lon))) / 4.0)
                     for v in d['vars']},
                    dict(valid_time=times, latitude=lat, longitude=lon))
  if cfg['shuffle']:  # stored in no particular order
    rs = np.random.RandomState(d['seed'] % 997)
    dim = 'init_time' if k == 'pred' else (
        'valid_time' if k != 'clim' else 'dayofyear')
    ds = ds.isel({dim: rs.permutation(ds.sizes[dim])})
  return ds


def stored(case):
  """The source as it lies on disk (its own names)."""
  cfg = case['cfg']
  ds = standard(case)
  names = {}
  if cfg['latlon']:
    names.update(latitude='lat', longitude='lon')
  if cfg['naming'] == 'ecmwf':
    names.update(dict(init_time='time', lead_time='prediction_timedelta')
                 if cfg['kind'] == 'pred' else dict(valid_time='time'))
  elif cfg['naming'] == 'dict':
    names.update(dict(init_time='run', lead_time='step', valid_time='when',
                      dayofyear='doy'))
  if cfg['rename']:
    names.update({v: f'raw_{v}' for v in case['data']['vars']})
  return ds.rename({a: b for a, b in names.items() if a in ds.variables})


# Functions a user passes; applying one twice would show.
def prep_scale(ds):
  return ds * 2 + 1


def prep_derive(ds):
  a, b = sorted(ds.data_vars)[:2]
  return ds.assign({a: ds[a] * 4 + ds[b]})


def proc_scale(chunk):
  return {k: v * 3 - 1 for k, v in chunk.items()}


def proc_keep(chunk):
  return chunk.assign(extra=chunk['t'] + 0.5) if 't' in chunk else chunk


def variables_of(case):
  vs = case['data']['vars']
  return {0: None, 1: list(vs), 2: [vs[-1], vs[0]]}[case['cfg']['variables']]


def space(case):
  """Labels chosen by sel_kwargs and by the interpolation."""
  d, cfg = case['data'], case['cfg']
  sel = {}
  if cfg['sel'] == 'lon':
    sel['longitude'] = d['lon'][:-1]
  elif cfg['sel'] == 'lat':
    sel['latitude'] = slice(d['lat'][0], d['lat'][-2])
  elif cfg['sel'] == 'level' and d['n_level'] and cfg['kind'] in (
      'pred', 'targ', 'pers'):
    sel['level'] = [850, 500, 300][d['n_level'] - 1]
  lat, lon = list(d['lat']), list(d['lon'])
  if cfg['sel'] == 'lon':
    lon = lon[:-1]
  if cfg['sel'] == 'lat':
    lat = lat[:-1]
  return sel, lat, lon


def interpolation(case):
  """(object, labels left per dimension)."""
  from weatherbenchX import interpolations as ip
  cfg = case['cfg']
  _, lat, lon = space(case)
  k = cfg['interp']
  if k in ('fixed', 'ref', 'multi') and (len(lat) < 2 or len(lon) < 2):
    k = ''
  if k == 'fixed':
    return ip.InterpolateToFixedCoords(
        'nearest', dict(latitude=np.array(lat[:1] + lat[-1:]),
                        longitude=np.array(lon[-1:]))), (lat[:1] + lat[-1:],
                                                         lon[-1:])
  if k == 'ref':
    return ip.InterpolateToReferenceCoords(
        'nearest', dims=['latitude', 'longitude']), (lat[-1:], lon[:1] + lon[-1:])
  if k == 'crop':
    a, b = min(lat), sorted(lat)[len(lat) // 2]
    return ip.CropToBox(a, b, -400, 400), ([x for x in lat if a <= x <= b], lon)
  if k == 'sub':
    return ip.Subsample(['longitude'], 2), (lat, lon[::2])
  if k == 'multi':
    return ip.MultipleInterpolation([ip.Subsample(
        ['latitude'], 2), ip.InterpolateToFixedCoords(
            'nearest', dict(longitude=np.array(lon[:1])))]), (lat[::2], lon[:1])
  return None, (lat, lon)


def reference_for(case):
  """A reference with the grid points asked for."""
  if case['cfg']['interp'] != 'ref':
    return None
  interp, (lat, lon) = interpolation(case)
  if interp is None:
    return None
  ref = xr.Dataset({v: (('latitude', 'longitude'), np.zeros(
      (len(lat), len(lon)))) for v in case['data']['vars'] + ['extra']},
                   dict(latitude=np.array(lat), longitude=np.array(lon)))
  return {k: v for k, v in ref.items()}


def build(case, source):
  from weatherbenchX.data_loaders import xarray_loaders as xl
  d, cfg = case['data'], case['cfg']
  sel, _, _ = space(case)
  interp, _ = interpolation(case)
  kw = dict(
      variables=variables_of(case), sel_kwargs=sel or None,
      preprocessing_fn=[None, prep_scale, prep_derive][cfg['prep']],
      process_chunk_fn=[None, proc_scale, proc_keep][cfg['proc']],
      interpolation=interp, compute=bool(cfg['compute']),
      add_nan_mask=bool(cfg['mask']), add_values_to_coords=bool(cfg['values']))
  if cfg['rename']:
    kw['rename_variables'] = {f'raw_{v}': v for v in d['vars']}
  if cfg['naming'] == 'none':
    kw['rename_dimensions'] = None
  elif cfg['naming'] == 'dict':
    kw['rename_dimensions'] = {
        'pred': dict(run='init_time', step='lead_time'),
        'clim': dict(doy='dayofyear')}.get(cfg['kind'], dict(when='valid_time'))
  kw.update(source)
  cls = dict(pred=xl.PredictionsFromXarray, targ=xl.TargetsFromXarray,
             pers=xl.PersistenceFromXarray, clim=xl.ClimatologyFromXarray,
             pclim=xl.ProbabilisticClimatologyFromXarray)[cfg['kind']]
  if cfg['kind'] == 'pclim':
    kw.update(start_year=2016, end_year=2018)
  return cls(**kw)


# ----------------------------------------------------------------- oracle ----
class Oracle:
  """Looks every requested value up in the stored data, one by one."""

  def __init__(self, case):
    self.case = case
    self.std = standard(case)
    self.vals = {}
    sel, lat, lon = space(case)
    _, (lat, lon) = interpolation(case)
    raw = {v: self.std[v] for v in self.std}
    cfg = case['cfg']
    if cfg['prep'] == 1:
      raw = {k: v * 2 + 1 for k, v in raw.items()}
    elif cfg['prep'] == 2:
      pre = 'raw_' if cfg['rename'] else ''
      a, b = sorted(pre + v for v in raw)[:2]
      a, b = a[len(pre):], b[len(pre):]
      raw = dict(raw, **{a: raw[a] * 4 + raw[b]})
    names = variables_of(case) or list(raw)
    raw = {k: raw[k] for k in names}
    if cfg['proc'] == 1:
      raw = {k: v * 3 - 1 for k, v in raw.items()}
    elif cfg['proc'] == 2 and 't' in raw:
      raw = dict(raw, extra=raw['t'] + 0.5)
    for k, v in raw.items():
      v = v.sel(latitude=lat, longitude=lon)
      if 'level' in sel:
        v = v.sel(level=sel['level'])
      self.vals[k] = v

  def expected(self, req):
    case = self.case
    init, lead = gen.times_of(case['data'])
    it, lt = request(case['data'], req)
    it = it.astype('datetime64[ns]')
    kind = case['cfg']['kind']
    if isinstance(lt, slice):
      lt = np.array([x for x in lead_all(case)
                     if lt.start <= x <= lt.stop])
    elif lt is None and kind == 'pred':
      lt = np.array(lead_all(case))
    elif lt is not None:
      lt = lt.astype('timedelta64[ns]')
    out = {}
    for k, v in self.vals.items():
      rows = []
      for a in it:
        if lt is None:
          rows.append(self.at(v, a, None))
        else:
          rows.append(xr.concat([self.at(v, a, b) for b in lt], 'lead_time'))
      x = xr.concat(rows, 'valid_time' if kind == 'targ' and lt is None
                    else 'init_time')
      x = x.assign_coords({x.dims[0]: it})
      if lt is not None:
        x = x.assign_coords(lead_time=lt)
      out[k] = x
    return out

  def at(self, v, a, b):
    kind = self.case['cfg']['kind']
    b0 = np.timedelta64(0, 'ns') if b is None else b
    if kind == 'pred':
      i = int(np.where(v['init_time'].values == a)[0][0])
      j = int(np.where(v['lead_time'].values == b)[0][0])
      x = v.isel(init_time=i, lead_time=j)
    elif kind in ('targ', 'pers'):
      t = a + b0 if kind == 'targ' else a
      x = v.isel(valid_time=int(np.where(v['valid_time'].values == t)[0][0]))
    elif kind == 'clim':
      t = (a + b0).astype('datetime64[s]').item()
      i = int(np.where(v['dayofyear'].values == t.timetuple().tm_yday)[0][0])
      j = int(np.where(v['hour'].values == t.hour)[0][0])
      x = v.isel(dayofyear=i, hour=j)
    else:
      t = (a + b0).astype('datetime64[s]').item()
      off = np.timedelta64((t.timetuple().tm_yday - 1) * 24 + t.hour, 'h')
      m = []
      for y in (2016, 2017, 2018):
        u = (np.datetime64(f'{y}-01-01', 'h') + off).astype('datetime64[ns]')
        m.append(v.isel(valid_time=int(
            np.where(v['valid_time'].values == u)[0][0])).reset_coords(
                'valid_time', drop=True))
      x = xr.concat(m, xr.DataArray(np.arange(3), dims='number',
                                    coords=dict(number=np.arange(3))))
    return x.reset_coords([c for c in x.coords if c not in x.dims], drop=True)


def lead_all(case):
  d = case['data']
  lead = list(gen.times_of(d)[1])
  return lead + ([lead[-1] + 5 * 24 * H] if d.get('extra') else [])


def check_answer(case, oracle, req, got, what):
  cfg = case['cfg']
  want = oracle.expected(req)
  if set(map(str, got)) != set(want):
    raise core.Violation('variables', f'{what}: {sorted(map(str, got))} instead '
                         f'of {sorted(want)}')
  n = 0
  for k, b in want.items():
    a = got[k]
    a = er.normal_times(a.to_dataset(name='x_'))['x_']
    r = gen.diff(a, b, 1e-5, 1e-5, f'{what} {k}')
    if r:
      raise core.Violation('wrong-data', r)
    n += b.size
    if cfg['kind'] == 'targ' and 'lead_time' in b.dims:
      if 'valid_time' not in a.coords:
        raise core.Violation('labels', f'{what} {k}: no valid_time')
      vt = a['valid_time'].transpose('init_time', 'lead_time').values
      ok = a['init_time'].values[:, None] + a['lead_time'].values[None]
      if not np.array_equal(vt, ok):
        raise core.Violation('labels', f'{what} {k}: valid_time {vt}')
    if cfg['mask']:
      if 'mask' not in a.coords:
        raise core.Violation('mask', f'{what} {k}: no mask')
      r = gen.diff(a['mask'].drop_vars('mask', errors='ignore').astype(float),
                   (~np.isnan(b)).astype(float), what=f'{what} mask of {k}')
      if r:
        raise core.Violation('mask', r)
    elif 'mask' in a.coords:
      raise core.Violation('mask', f'{what} {k}: a mask nobody asked for')
    if cfg['values']:
      r = gen.diff(a['values_as_coord'], b, 1e-5, 1e-5, f'{what} values of {k}')
      if r:
        raise core.Violation('values-as-coord', r)
  return n


# -------------------------------------------------------------- execution ----
def execute(case, ch, st):
  import os
  import shutil
  import tempfile
  np.seterr(all='ignore')
  case = copy.deepcopy(case)
  scratch = None
  with core.World(ch) as w:
    try:
      if case['cfg']['src'] == 'nc':
        scratch = tempfile.mkdtemp(prefix='vsim-c08-')
      body(w, case, ch, scratch)
    finally:
      if scratch:
        shutil.rmtree(os.path.abspath(scratch))
  st.absorb(w)
  st.nontrivial = True


def body(w, case, ch, scratch):
  cfg = case['cfg']
  zs = zsim.ZStore(w, case['data']['seed'], 0, 0, max_per_key=3)
  zsim.set_store(zs)
  ds = stored(case)
  if cfg['src'] in ('zarr', 'nc'):
    for v in ds:
      ds[v].encoding = {}
    enc = {}
    if cfg['packed']:
      enc = {v: dict(dtype='int16', scale_factor=0.25, _FillValue=-32767)
             for v in ds}
    if cfg['src'] == 'zarr':
      ds.chunk(2).to_zarr(URL, encoding=enc, consolidated=cfg['packed'] == 0)
      source = dict(path=URL)
    else:
      ds.to_netcdf(scratch + '/data.nc', encoding=enc)
      source = dict(path=scratch + '/data.nc')
  elif cfg['src'] == 'dask':
    ds = ds.chunk()
    source = dict(ds=ds)
  else:
    source = dict(ds=ds)

  def state():
    if cfg['src'] == 'zarr':
      return {k: zsim.hash_of(repr(v)) for k, v in zs.files.items()}
    if cfg['src'] == 'nc':
      return open(scratch + '/data.nc', 'rb').read()
    return (gen.snap(ds), repr(ds.coords), sorted(map(repr, ds.attrs.items())))

  before = state()
  oracle = Oracle(case)
  handles = [build(case, source)]
  ref = reference_for(case)
  ref_before = gen.snap(ref) if ref else None
  n = 0

  def load(h, req):
    it, lt = request(case['data'], req)
    keep = [it.copy(), None if lt is None or isinstance(lt, slice)
            else lt.copy()]
    out = h.load_chunk(it, lt, ref) if ref is not None else h.load_chunk(it, lt)
    if not np.array_equal(it, keep[0]) or (
        keep[1] is not None and not np.array_equal(lt, keep[1])):
      raise core.Violation('request-modified', 'the requested times changed')
    return out

  for num, op in enumerate(case['ops']):
    h = handles[op['handle'] % len(handles)]
    kind = op['op']
    what = f'op {num} ({kind})'
    w.log(what)
    if kind == 'load':
      n += check_answer(case, oracle, op['req'], load(h, op['req']), what)
    elif kind == 'prepare':
      h.maybe_prepare_dataset()
    elif kind == 'cut':
      exc = dict(MemoryError=MemoryError, KeyboardInterrupt=KeyboardInterrupt,
                 OSError=OSError, ValueError=ValueError,
                 KeyError=KeyError)[op['exc']]('injected')
      cut = core.interrupt_at_line(op['at'], exc)
      out = None
      try:
        with cut:
          out = load(h, op['req'])
      except core.Violation:
        raise
      except BaseException as e:  # pylint: disable=broad-except
        if e is not exc and exc not in (e.__cause__, e.__context__):
          raise
      if cut.fired:
        w.count('fault.interrupted_load')
        w.log(f'cut {cut.where}')
      if out is not None:
        n += check_answer(case, oracle, op['req'], out, what)
      n += check_answer(case, oracle, op['req'], load(h, op['req']),
                        what + ' retried')
    elif kind == 'bad':
      bad = dict(op['req'])
      it, lt = request(case['data'], bad)
      if cfg['kind'] in ('clim', 'pclim'):
        it = it + np.timedelta64(24 * 120, 'h').astype(
            f'timedelta64[{bad["unit"]}]')
      else:
        it = it.astype('datetime64[s]') + np.timedelta64(op['seed'] + 1, 's')
      try:
        got = h.load_chunk(it, lt, ref)
        for v in got.values():
          np.asarray(v)
      except Exception:  # pylint: disable=broad-except
        w.count('fault.request_for_absent_times')
      else:
        raise core.Violation('made-up', f'{what}: times that are not stored were '
                             'answered')
      n += check_answer(case, oracle, op['req'], load(h, op['req']),
                        what + ' then good')
    elif kind == 'fault':
      zs.seed, zs.p_get, zs.on, zs.failed = op['seed'], .5, True, 0
      zs.tries = {}
      out = None
      try:
        out = load(h, op['req'])
        for v in out.values():
          v.load()
      except core.Violation:
        raise
      except Exception:  # pylint: disable=broad-except
        if not zs.failed:
          raise
        out = None
        w.count('probe.load_failed')
      zs.on = False
      if out is not None:
        n += check_answer(case, oracle, op['req'], out, what)
      # The storage has recovered.
      n += check_answer(case, oracle, op['req'], load(h, op['req']),
                        what + ' recovered')
    elif kind == 'copy':
      if op['how'] == 'deepcopy':
        new = copy.deepcopy(h)
      else:
        import cloudpickle
        mod = pickle if op['how'] == 'pickle' else cloudpickle
        new = pickle.loads(mod.dumps(h))
      handles.append(new)
      w.count('probe.copied')
      n += check_answer(case, oracle, op['req'], load(new, op['req']), what)
    elif kind == 'twin':  # a second loader over the same source
      handles.append(build(case, source))
    elif kind == 'other':  # a loader with another configuration, same source
      c2 = copy.deepcopy(case)
      o = op['other']
      c2['cfg'][o] = dict(prep=(cfg['prep'] + 1) % 3, proc=(cfg['proc'] + 1) % 3,
                          variables=(cfg['variables'] + 1) % 3,
                          sel='lon' if cfg['sel'] != 'lon' else '',
                          interp='sub' if cfg['interp'] != 'sub' else '')[o]
      h2 = build(c2, source)
      it, lt = request(case['data'], op['req'])
      ref2 = reference_for(c2)
      out = h2.load_chunk(it, lt, ref2)
      n += check_answer(c2, Oracle(c2), op['req'], out, what + ' ' + o)
      w.count('probe.other_configuration')
    elif kind == 'threads':
      # Half of the time nothing has been opened before.
      if op['seed'] % 2:
        h = build(case, source)
        handles.append(h)
      tr = core.line_tracer(w, .6)
      tasks = [w.spawn(f't{i}', lambda r=r: load(h, r), tracer=tr)
               for i, r in enumerate(op['reqs'])]
      w.run_to_end()
      for t, r in zip(tasks, op['reqs']):
        if t.error is not None:
          raise t.error
        n += check_answer(case, oracle, r, t.result, what + ' ' + t.name)
      w.count('probe.threads')
    if state() != before:
      raise core.Violation('source-modified', f'{what}: the source changed')
    if ref and gen.snap(ref) != ref_before:
      raise core.Violation('reference-modified', f'{what}: the reference changed')
  w.count('probe.values_checked', n)
  w.count('kind.' + cfg['kind'])
  w.count('source.' + cfg['src'])


def shrink(case):
  for i in range(len(case['ops'])):
    c = copy.deepcopy(case)
    del c['ops'][i]
    if c['ops']:
      yield c
  for k, v in (('prep', 0), ('proc', 0), ('interp', ''), ('sel', ''), ('mask', 0),
               ('values', 0), ('shuffle', 0), ('packed', 0), ('rename', 0),
               ('latlon', 0), ('variables', 0), ('naming', 'none'),
               ('src', 'ds')):
    if case['cfg'][k] != v:
      c = copy.deepcopy(case)
      c['cfg'][k] = v
      yield c
  if case['data']['nan']:
    c = copy.deepcopy(case)
    c['data']['nan'] = []
    yield c
