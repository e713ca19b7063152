"""C09: latency adjustment uses the freshest forecast issued, never the future."""
import copy
import pickle

import numpy as np
import xarray as xr

from vsim import beamsim
from vsim import core
from vsim import evalrun as er
from vsim import fsim
from vsim import gen
from vsim import usercode
from vsim import zsim

T0 = np.datetime64('2020-02-27T00', 'ns')
M = np.timedelta64(1, 'm').astype('timedelta64[ns]')
LAT, LON = np.array([-30.0, 0.0, 45.0]), np.array([0.0, 120.0])


def setup():
  er.setup()
  zsim.install()
  import weatherbenchX.data_loaders.latency_wrappers  # noqa
  import weatherbenchX.interpolations  # noqa
  import dask
  import zarr
  dask.config.set(scheduler='synchronous')
  zarr.config.set({'async.concurrency': 1, 'threading.max_workers': 1})


# ------------------------------------------------------------- generation ----
def make(rng, tier, index):
  g = rng.choice([30, 60, 60, 180, 360])  # minutes
  n_str = rng.choice([1, 1, 2, 2, 3])
  streams = []
  for s in range(n_str):
    n = rng.randint(1, 6)
    how = rng.choice(['regular', 'gaps', 'any'])
    if how == 'regular':
      step = rng.choice([1, 2, 4])
      a = rng.randint(0, 4)
      nom = [a + i * step for i in range(n)]
    elif how == 'gaps':
      nom = sorted(rng.sample(range(0, 12), n))
    else:
      nom = rng.sample(range(0, 16), n)
    lead0 = rng.choice([0, 0, 0, 1])
    streams.append(dict(
        nominal=[x * g for x in nom],
        latency=g * rng.choice([0, 1, 1, 2, 3, 5]) + rng.choice([0, 0, 0, 1, -1]),
        leads=[x * g for x in range(lead0, lead0 + rng.choice([10, 20, 30]))],
        drop=rng.choice([0, 0, 0, 1]),
        lat_unit=rng.choice(['ns', 'm', 's'])))
  for s in streams:
    s['latency'] = max(s['latency'], 0)
  if n_str > 1 and rng.random() < .4:  # ties between streams
    streams[1]['nominal'] = list(streams[0]['nominal'])
    rng.shuffle(streams[1]['nominal'])
  src = rng.choice(['ds', 'ds', 'dask', 'zarr', 'dense', 'dense', 'sparse',
                    'sparse'])
  case = dict(
      g=g, streams=streams, src=src,
      wrap=rng.choice(['const', 'xr']) if src in ('ds', 'dask', 'zarr')
      else 'const',
      multi=1 if n_str > 1 else rng.choice([0, 0, 1]),
      nom_unit=rng.choice(['ns', 'ns', 'm', 's']),
      naming=rng.choice([0, 1]), mask=rng.choice([0, 0, 1]),
      interp=rng.choice([0, 0, 1]), proc=rng.choice([0, 0, 1]),
      vars=rng.choice([['t'], ['t', 'u']]), seed=rng.randrange(10**9),
      order=rng.choice([0, 1]), nan=rng.choice([0, 0, 1]))
  case['ops'] = [gen_op(rng, case) for _ in range(
      rng.randint(3, 8 if tier == 'quick' else 16))]
  return case


def gen_req(rng, case):
  g = case['g']
  pool = []
  for s in case['streams']:
    for n in s['nominal']:
      e = n + s['latency']
      pool += [e, e, e + 1, e - 1, e + g, e - g]  # around the issue times
  pool = sorted(set(x for x in pool))
  k = rng.choice([1, 1, 2, 3, 4])
  inits = []
  for _ in range(k):
    x = rng.choice(pool) if rng.random() < .6 else g * rng.randint(0, 30)
    if x not in inits:
      inits.append(x)
  if rng.random() < .6:
    inits.sort()
  # A lead time is stored only if the offset is a multiple of the step.
  base = rng.choice([0, 0, 0, 0, 1])
  leads = [g * x + base for x in rng.sample(range(0, 8), rng.randint(1, 3))]
  if rng.random() < .5:
    leads = aligned(rng, case, inits[0], len(leads)) or leads
  if rng.random() < .6:
    leads.sort()
  return dict(i=inits, l=leads, unit=rng.choice(['ns', 's', 'm']))


def aligned(rng, case, t, k):
  """Lead times whose adjusted value is stored for request time t."""
  c = choose(case, t)
  if c is None:
    return None
  s, n = c
  have = [x - (t - n) for x in stored_leads(case['streams'][s])]
  have = [x for x in have if x >= 0]
  return rng.sample(have, min(k, len(have))) if have else None


def gen_op(rng, case):
  # Requests of which at least the first time can be answered come often.
  op = rng.choice(['load'] * 6 + ['cut', 'fault', 'threads', 'copy', 'pipeline'])
  reqs = []
  for _ in range(3):
    r = gen_req(rng, case)
    for _ in range(6):
      if status(case, r) == 'ok':
        break
      r = gen_req(rng, case)
    reqs.append(r)
  return dict(op=op, req=reqs[0], reqs=reqs, at=rng.randint(1, 60),
              exc=rng.choice(['MemoryError', 'KeyboardInterrupt', 'OSError',
                              'ValueError']),
              how=rng.choice(['pickle', 'cloudpickle', 'deepcopy']),
              chunks=[rng.choice([0, 1, 2]), rng.choice([0, 1, 2])],
              plan=er.gen_plan(rng, faults=rng.random() < .5),
              seed=rng.randrange(1000), handle=rng.randrange(3))


# ------------------------------------------------------------------ model ----
def stored_leads(s):
  out = list(s['leads'])
  if s['drop']:
    del out[len(out) // 2]
  return out


def choose(case, t):
  """(stream, nominal time) in minutes for a request at t, or None."""
  best = None
  for k, s in enumerate(case['streams']):
    for n in s['nominal']:
      if n + s['latency'] <= t:
        key = (n, s['latency'])
        if best is None or key > best[0]:
          best = (key, [(k, n)])
        elif key == best[0]:
          best[1].append((k, n))
  return best[1][0] if best else None


def choices(case, t):
  """All equally good choices (several streams alike)."""
  c = choose(case, t)
  if c is None:
    return []
  s0 = case['streams'][c[0]]
  return [(k, c[1]) for k, s in enumerate(case['streams'])
          if s['latency'] == s0['latency'] and c[1] in s['nominal']]


def status(case, req):
  """'ok', 'fail', or 'open' where equal streams differ."""
  out = 'ok'
  for t in req['i']:
    c = choices(case, t)
    if not c:
      return 'fail'
    if case['src'] == 'sparse':
      continue
    have = [all(t - n + l in stored_leads(case['streams'][k]) for l in req['l'])
            for k, n in c]
    if not any(have):
      return 'fail'
    if not all(have):
      out = 'open'
  return out


def value(case, v, k, n, lead):
  """Field of one forecast step, (latitude, longitude)."""
  rs = np.random.RandomState(
      zsim.hash_of(f'{case["seed"]},{v},{k},{n},{lead}') % (2**32 - 1))
  x = rs.randint(-40, 41, size=(len(LAT), len(LON))) / 4.0
  if case['nan'] and rs.randint(4) == 0:
    x[0, 0] = np.nan
  return x


def expected(case, req, pick):
  """Dense answer; pick(t) gives the (stream, nominal time)."""
  out = {}
  for v in case['vars']:
    a = np.array([[value(case, v, *pick(t), t - pick(t)[1] + l) for l in req['l']]
                  for t in req['i']])
    x = xr.DataArray(a, dims=('init_time', 'lead_time', 'latitude', 'longitude'),
                     coords=dict(init_time=T0 + np.array(req['i']) * M,
                                 lead_time=np.array(req['l']) * M, latitude=LAT,
                                 longitude=LON))
    if case['interp']:
      x = x.isel(latitude=slice(None, None, 2))
    if case['proc']:
      x = x * 3 - 1
    out[v] = x
  return out


def rows_of(case, k, n, lead):
  """Sparse rows (station, lat, values per variable) of one forecast step."""
  rs = np.random.RandomState(
      zsim.hash_of(f'{case["seed"]},rows,{k},{n},{lead}') % (2**32 - 1))
  c = rs.randint(0, 4)
  return [(int(s), float(LAT[s % 3]),
           [float(value(case, v, k, n, lead)[s % 3, s % 2]) for v in case['vars']])
          for s in rs.permutation(6)[:c]]


# ---------------------------------------------------------------- loaders ----
def build(case, archive):
  from weatherbenchX import interpolations as ip
  from weatherbenchX.data_loaders import latency_wrappers as lw
  from weatherbenchX.data_loaders import xarray_loaders as xl
  sparse = case['src'] == 'sparse'
  dim = 'index' if sparse else 'init_time'
  out = []
  for k, s in enumerate(case['streams']):
    kw = dict(add_nan_mask=bool(case['mask']))
    if not sparse:
      kw['interpolation'] = ip.Subsample(['latitude'], 2) if case[
          'interp'] else None
      kw['process_chunk_fn'] = proc if case['proc'] else None
    if case['src'] in ('dense', 'sparse'):
      inner = usercode.Archive(archive[k], **kw)
    else:
      inner = xl.PredictionsFromXarray(
          rename_dimensions='ecmwf' if case['naming'] else None, **archive[k],
          **kw)
    lat = (s['latency'] * M).astype(f'timedelta64[{s["lat_unit"]}]')
    if case['wrap'] == 'xr':
      out.append(lw.XarrayConstantLatencyWrapper(inner, lat, concat_dim=dim))
    else:
      nom = (T0 + np.array(s['nominal']) * M).astype(
          f'datetime64[{case["nom_unit"]}]')
      out.append(lw.ConstantLatencyWrapper(inner, lat, nom, concat_dim=dim))
  if not case['multi']:
    return out[0]
  return lw.MultipleConstantLatencyWrapper(out, concat_dim=dim)


def proc(chunk):
  return {k: v * 3 - 1 for k, v in chunk.items()}


def archive_of(case):
  """The stored forecasts of every stream."""
  out = []
  for k, s in enumerate(case['streams']):
    leads = stored_leads(s)
    if case['src'] == 'sparse':
      rows = []
      for n in s['nominal']:
        for l in leads:
          for st_, la, vals in rows_of(case, k, n, l):
            rows.append((T0 + n * M, l * M, st_, la, vals))
      rs = np.random.RandomState(case['seed'] % 1000)
      rows = [rows[i] for i in rs.permutation(len(rows))]
      out.append(dict(kind='sparse', vars=case['vars'], rows=rows, fail=[0]))
      continue
    data = {}
    for v in case['vars']:
      a = np.array([[value(case, v, k, n, l) for l in leads]
                    for n in s['nominal']])
      data[v] = xr.DataArray(
          a, dims=('init_time', 'lead_time', 'latitude', 'longitude'), coords=dict(
              init_time=T0 + np.array(s['nominal']) * M,
              lead_time=np.array(leads) * M, latitude=LAT, longitude=LON))
      if case['order']:
        data[v] = data[v].transpose('latitude', 'lead_time', 'longitude',
                                    'init_time')
    ds = xr.Dataset(data)
    if case['src'] == 'dense':
      out.append(dict(kind='dense', ds=ds, fail=[0]))
      continue
    if case['naming']:
      ds = ds.rename(init_time='time', lead_time='prediction_timedelta')
    if case['src'] == 'dask':
      ds = ds.chunk()
    if case['src'] == 'zarr':
      url = f'zim://src/stream{k}.zarr'
      ds.chunk(4).to_zarr(url)
      out.append(dict(path=url))
    else:
      out.append(dict(ds=ds))
  return out


# -------------------------------------------------------------- execution ----
def execute(case, ch, st):
  np.seterr(all='ignore')
  case = copy.deepcopy(case)
  with core.World(ch) as w:
    zs = zsim.ZStore(w, case['seed'], 0, 0, max_per_key=3)
    zsim.set_store(zs)
    fsim.set_storage(fsim.Storage(w))
    archive = archive_of(case)
    handles = [build(case, archive)]
    n = 0
    for num, op in enumerate(case['ops']):
      n += do(w, ch, case, archive, handles, zs, num, op)
    w.count('probe.values_checked', n)
    w.count('source.' + case['src'])
    w.count('wrapper.' + ('multi' if case['multi'] else case['wrap']))
  st.absorb(w)
  st.nontrivial = True


def do(w, ch, case, archive, handles, zs, num, op):
  h = handles[op['handle'] % len(handles)]
  kind, req = op['op'], op['req']
  what = f'op {num} ({kind})'
  w.log(what)
  if kind == 'load':
    return ask(w, case, h, req, what)
  if kind == 'copy':
    if op['how'] == 'deepcopy':
      new = copy.deepcopy(h)
    else:
      import cloudpickle
      new = pickle.loads(
          (pickle if op['how'] == 'pickle' else cloudpickle).dumps(h))
    handles.append(new)
    w.count('probe.copied')
    return ask(w, case, new, req, what)
  if kind == 'cut':
    exc = dict(MemoryError=MemoryError, KeyboardInterrupt=KeyboardInterrupt,
               OSError=OSError, ValueError=ValueError)[op['exc']]('injected')
    cut = core.interrupt_at_line(op['at'], exc)
    out = None
    try:
      with cut:
        out = load(h, req)
    except BaseException as e:  # pylint: disable=broad-except
      # A stream that cannot tell what it has issued must not be passed over.
      if e is not exc and exc not in (e.__cause__, e.__context__) and (
          status(case, req) == 'ok'):
        if not cut.fired:
          raise
    if cut.fired:
      w.count('fault.interrupted_load')
      w.log(f'cut {cut.where}')
    n = 0
    if out is not None and not (cut.fired and op['exc'] == 'ValueError'):
      n = judge(w, case, req, out, what)
    return n + ask(w, case, h, req, what + ' retried')
  if kind == 'fault':
    if case['src'] == 'zarr':
      zs.seed, zs.p_get, zs.on, zs.failed = op['seed'], .5, True, 0
      zs.tries = {}
    elif case['src'] in ('dense', 'sparse'):
      for a in archive:
        a['fail'][0] = 1 + op['seed'] % 3
    out = None
    try:
      out = load(h, req)
    except Exception:  # pylint: disable=broad-except
      bad = zs.failed if case['src'] == 'zarr' else any(
          a.get('fail', [0])[0] < 0 for a in archive)
      if status(case, req) == 'ok' and not bad:
        raise
      if bad:
        w.count('fault.archive_read_failed')
    zs.on = False
    for a in archive:
      if 'fail' in a:
        a['fail'][0] = 0
    n = judge(w, case, req, out, what) if out is not None else 0
    return n + ask(w, case, h, req, what + ' recovered')
  if kind == 'threads':
    if op['seed'] % 2:
      h = build(case, archive)
      handles.append(h)
    tr = core.line_tracer(w, .6)
    tasks = [w.spawn(f't{i}', lambda r=r: outcome(h, r), tracer=tr)
             for i, r in enumerate(op['reqs'])]
    w.run_to_end()
    w.count('probe.threads')
    n = 0
    for t, r in zip(tasks, op['reqs']):
      if t.error is not None:
        raise t.error
      n += conclude(w, case, r, t.result, f'{what} {t.name}')
    return n
  assert kind == 'pipeline'
  if case['src'] == 'sparse' or status(case, req) != 'ok' or case['mask'] or (
      len({t for t in req['i']}) < 1):
    return ask(w, case, h, req, what)
  return pipeline(w, ch, case, h, req, op, what)


def load(h, req):
  u = req['unit']
  it = (T0 + np.array(req['i']) * M).astype(f'datetime64[{u}]')
  lt = (np.array(req['l']) * M).astype(f'timedelta64[{u}]')
  out = h.load_chunk(it, lt)
  for v in out.values():
    v.load()
  return out


def outcome(h, req):
  try:
    return load(h, req)
  except Exception as e:  # pylint: disable=broad-except
    return e


def ask(w, case, h, req, what):
  return conclude(w, case, req, outcome(h, req), what)


def conclude(w, case, req, got, what):
  s = status(case, req)
  if isinstance(got, Exception):
    if s == 'ok':
      raise got
    w.count('probe.refused')
    if any(not choices(case, t) for t in req['i']):
      w.count('probe.nothing_issued')
    return 0
  return judge(w, case, req, got, what)


def judge(w, case, req, got, what):
  s = status(case, req)
  if s == 'fail':
    bad = [t for t in req['i'] if not choices(case, t)]
    raise core.Violation(
        'made-up', f'{what}: request for minutes {req["i"]} leads {req["l"]} was '
        'answered, ' + (f'though nothing had been issued at {bad}' if bad else
                        'though a step is not stored'))
  if set(map(str, got)) != set(case['vars']):
    raise core.Violation('variables', f'{what}: {sorted(map(str, got))}')
  for t in req['i']:
    c = choices(case, t)
    if any(t == n + case['streams'][k]['latency'] for k, n in c):
      w.count('probe.available_exactly_now')
    fresh = [k for k, s_ in enumerate(case['streams']) if c[0][1] in s_['nominal']
             and c[0][1] + s_['latency'] <= t]
    if len(fresh) > 1:
      w.count('probe.tie_between_streams')
  if case['src'] == 'sparse':
    return judge_sparse(case, req, got, what)
  opts = [choices(case, t) for t in req['i']]
  last = None
  # Streams that are alike in nominal time and latency may serve either way.
  for alt in range(max(len(o) for o in opts)):
    def pick(t):
      o = choices(case, t)
      return o[alt % len(o)]
    last = compare(case, req, got, pick, what)
    if isinstance(last, int):
      return last
  if max(len(o) for o in opts) > 1 and len(opts) > 1:
    n = 0
    for i, t in enumerate(req['i']):  # each time on its own
      one = dict(req, i=[t])
      part = {k: v.isel(init_time=[i]) for k, v in got.items()}
      rs = [compare(case, one, part, lambda _, c=c: c, what)
            for c in choices(case, t)]
      if not any(isinstance(r, int) for r in rs):
        raise rs[0]
      n += max(r for r in rs if isinstance(r, int))
    return n
  raise last


def compare(case, req, got, pick, what):
  """Number of values compared, or the Violation."""
  try:
    want = expected(case, req, pick)
  except IndexError:
    return core.Violation('wrong-forecast', f'{what}: no such step')
  n = 0
  for k, b in want.items():
    a = er.normal_times(got[k].to_dataset(name='x_'))['x_']
    for c in ('init_time', 'lead_time'):
      if not np.array_equal(a[c].values, b[c].values):
        return core.Violation('labels', f'{what} {k}: {c} is {a[c].values} for '
                              f'requested {b[c].values}')
    if 'valid_time' in a.coords:
      vt = a['valid_time'].transpose('init_time', 'lead_time').values
      if not np.array_equal(vt, b['init_time'].values[:, None]
                            + b['lead_time'].values[None]):
        return core.Violation('labels', f'{what} {k}: valid_time {vt}')
    r = gen.diff(a, b, 1e-9, 1e-9, f'{what} {k}')
    if r:
      return core.Violation('wrong-forecast', r)
    if case['mask']:
      if 'mask' not in a.coords:
        return core.Violation('mask', f'{what} {k}: no mask')
      r = gen.diff(a['mask'].drop_vars('mask', errors='ignore').astype(float),
                   (~np.isnan(b)).astype(float), what=f'{what} mask of {k}')
      if r:
        return core.Violation('mask', r)
    n += b.size
  return n


def judge_sparse(case, req, got, what):
  n = 0
  for j, v in enumerate(case['vars']):
    a = got[v]
    have = sorted(
        (int((x - T0) / M), int(l / M), int(s), float(la), round(float(y), 6)
         if y == y else 'nan') for x, l, s, la, y in zip(
             a['init_time'].values.astype('datetime64[ns]'),
             a['lead_time'].values.astype('timedelta64[ns]'),
             a['station'].values, a['latitude'].values, a.values))
    for x, l, vt in zip(a['init_time'].values, a['lead_time'].values,
                        a['valid_time'].values):
      if x + l != vt:
        raise core.Violation('labels', f'{what}: {x} + {l} is not {vt}')
    want = []
    ok = False
    alts = max(len(choices(case, t)) for t in req['i'])
    for alt in range(alts):
      want = []
      for t in req['i']:
        o = choices(case, t)
        k, nom = o[alt % len(o)]
        for l in req['l']:
          if t - nom + l in stored_leads(case['streams'][k]):
            for s, la, vals in rows_of(case, k, nom, t - nom + l):
              y = vals[j]
              want.append((t, l, s, la, round(y, 6) if y == y else 'nan'))
      if sorted(map(repr, want)) == sorted(map(repr, have)):
        ok = True
    if not ok and alts == 1:
      raise core.Violation(
          'wrong-forecast', f'{what} {v}: rows missing '
          f'{sorted(set(want) - set(have))[:4]} extra '
          f'{sorted(set(have) - set(want), key=repr)[:4]} of {len(want)}')
    n += len(have)
  return n


def pipeline(w, ch, case, h, req, op, what):
  """A whole evaluation of adjusted forecasts, in chunks of time."""
  import apache_beam as beam
  from weatherbenchX import aggregation
  from weatherbenchX import beam_pipeline
  from weatherbenchX import time_chunks
  from weatherbenchX.data_loaders import xarray_loaders as xl
  from weatherbenchX.metrics import deterministic
  if any(len(choices(case, t)) > 1 for t in req['i']):
    return 0
  init = T0 + np.array(req['i']) * M
  lead = np.array(req['l']) * M
  valid = np.unique((init[:, None] + lead[None]).ravel())
  rs = np.random.RandomState(case['seed'] % 5000)
  lat = LAT[::2] if case['interp'] else LAT
  t = xr.Dataset({v: (('valid_time', 'latitude', 'longitude'), rs.randint(
      -12, 13, size=(len(valid), len(lat), len(LON))) / 4.0) for v in case['vars']},
                 dict(valid_time=valid, latitude=lat, longitude=LON))
  exp = expected(case, req, lambda x: choices(case, x)[0])
  metrics = dict(mae=deterministic.MAE(), bias=deterministic.Bias())
  agg = aggregation.Aggregator(reduce_dims=['latitude', 'longitude'])
  ci, cl = op['chunks']
  r = beamsim.SimRunner(w, beamsim.Plan(**op['plan']))
  tl = xl.TargetsFromXarray(ds=t, rename_dimensions=None)
  out = f'sim:///out/{ch.pos}.nc'
  with beam.Pipeline(runner=r) as root:
    beam_pipeline.define_pipeline(
        root, time_chunks.TimeChunks(init, lead, ci, cl), er.Recording(h, 'P'),
        er.Recording(tl, 'T'), metrics, agg, out_path=out)
  r.drain_zombies()
  got = er.load_nc(fsim.storage().content(out[len('sim://'):]))
  n = 0
  for v in case['vars']:
    tv = xr.concat([t[v].sel(valid_time=a + lead).drop_vars('valid_time').rename(
        valid_time='lead_time').assign_coords(lead_time=lead) for a in init],
                   'init_time').assign_coords(init_time=init)
    e = exp[v] - tv
    for m, x in (('mae', abs(e)), ('bias', e)):
      b = x.mean(['latitude', 'longitude'], skipna=False)
      rr = gen.diff(got[f'{m}.{v}'], b, 1e-8, 1e-8, f'{what} {m}.{v}')
      if rr:
        raise core.Violation('wrong-forecast', rr)
      n += b.size
  w.count('probe.evaluated_in_chunks')
  return n


def shrink(case):
  for i in range(len(case['ops'])):
    c = copy.deepcopy(case)
    del c['ops'][i]
    if c['ops']:
      yield c
  for k in range(len(case['streams'])):
    if len(case['streams']) > 1:
      c = copy.deepcopy(case)
      del c['streams'][k]
      yield c
    for i in range(len(case['streams'][k]['nominal'])):
      if len(case['streams'][k]['nominal']) > 1:
        c = copy.deepcopy(case)
        del c['streams'][k]['nominal'][i]
        yield c
  for k, op in enumerate(case['ops']):
    for key in ('i', 'l'):
      for i in range(len(op['req'][key])):
        if len(op['req'][key]) > 1:
          c = copy.deepcopy(case)
          del c['ops'][k]['req'][key][i]
          yield c
  for k, v in (('mask', 0), ('interp', 0), ('proc', 0), ('nan', 0), ('order', 0),
               ('naming', 0), ('nom_unit', 'ns'), ('vars', ['t'])):
    if case[k] != v:
      yield dict(copy.deepcopy(case), **{k: v})
