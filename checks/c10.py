"""C10: sparse observations: each requested one exactly once, or an error."""
import collections
import copy
import io
import os
import pickle
import re
import shutil
import tempfile

import numpy as np
import pandas as pd
import xarray as xr

from vsim import beamsim
from vsim import core
from vsim import evalrun as er
from vsim import fsim
from vsim import gen
from vsim import obsim
from vsim import usercode

M = np.timedelta64(1, 'm').astype('timedelta64[ns]')
BASES = ['2019-12-31T12', '2020-02-28T18', '2020-03-01T00', '2021-02-28T12',
         '2020-06-15T12', '2020-10-31T00']
FLAGS = ['S', 'V', 'C', 'Z', 'B', 'X', 'Q', 'k']
METAR = {'t': ('temperature', '2m_temperature'),
         'u': ('windSpeed', '10m_wind_speed')}


def setup():
  er.setup()
  obsim.install()
  import weatherbenchX.data_loaders.sparse_parquet  # noqa
  import pyarrow
  pyarrow.set_cpu_count(1)
  pyarrow.set_io_thread_count(1)


# ------------------------------------------------------------- generation ----
def make(rng, tier, index):
  part = rng.choice(['hour', 'hour', 'day', 'day', 'month'])
  by = rng.choice(['timeObs', 'timeObs', 'timeNominal'])
  dev = rng.choice([0, 10, 30, 60, 90])  # |timeObs - timeNominal| at most
  ft = dev if rng.random() < .6 else dev + rng.choice([0, 30, 60, 360])
  if by == 'timeNominal':
    ft = rng.choice([0, 0, 30, 60])
  grid = rng.choice([5, 10, 30, 60])
  rows = []
  for _ in range(rng.choice([1, 6, 15, 30, 60])):
    if rng.random() < .5:  # at or next to a partition boundary
      n = 60 * rng.randint(-6, 54) if part == 'hour' else 720 + 1440 * rng.randint(
          -1, 1)
      n += rng.choice([0, 0, 1, -1, grid, -grid])
    else:
      n = grid * rng.randint(-300 // grid, 2880 // grid)
    o = n + (rng.randint(-dev, dev) if rng.random() < .6 else 0)
    rows.append(dict(n=n, o=o, s=rng.randint(0, 5), la=rng.randint(-9, 9) * 10,
                     lo=rng.randint(-18, 35) * 10,
                     t=None if rng.random() < .15 else rng.randint(-40, 40) / 4,
                     u=None if rng.random() < .15 else rng.randint(-40, 40) / 4,
                     q=rng.choice(FLAGS), q2=rng.choice(FLAGS),
                     el=rng.choice([0., 12.5, 9998.0, 9999.0])))
  for _ in range(rng.choice([0, 0, 2, 5])):  # same time, same station
    a = dict(rng.choice(rows))
    a.update(rng.choice([dict(t=1.25), dict(o=a['n']), {}]))
    rows.append(a)
  metar = rng.random() < .25
  window = rng.choice(['exact', 'exact', 'tol', 'tol', 'slice', 'none',
                       'none_tol'])
  tol = None
  if 'tol' in window:
    a, b = sorted(rng.sample([-360, -90, -60, -30, -10, -1, 0, 1, 10, 30, 60, 180],
                             2))
    tol = [a, b] if rng.random() < .5 else max(abs(a), abs(b), 1)
  dup = rng.random() < .3 and window != 'slice'
  case = dict(
      part=part, by=by, ft=ft, rows=rows, base=rng.choice(BASES), metar=int(metar),
      window=window, tol=tol, end=rng.choice([0, 1]),
      dup=int(dup), pick=rng.choice(['timeObs', 'timeObs', None]) if dup else None,
      split=rng.choice([0, 1]), dropna=rng.choice([0, 1]),
      rename=rng.choice([0, 1, 2]), coords=rng.choice([0, 1, 2]),
      vars=rng.choice([['t'], ['t', 'u'], ['u', 't']]), prep=rng.choice([0, 0, 1, 2]),
      mask=rng.choice([0, 0, 1]), proc=rng.choice([0, 0, 1]),
      shuffle=rng.randrange(1000), groups=rng.choice([2, 7, 1000]),
      tunit=rng.choice(['ns', 'us', 'ms']), empty=rng.choice([0, 0, 1]),
      src=rng.choice(['obs', 'obs', 'obs', 'local']) if part != 'hour' else 'obs',
      seed=rng.randrange(10**9))
  if case['mask'] or case['pick']:
    case['empty'] = 0  # values without a type cannot be masked (fails loudly)
  case['ops'] = [gen_op(rng, case) for _ in range(
      rng.randint(3, 7 if tier == 'quick' else 14))]
  return case


def when(case, r):
  return r['o'] if case['by'] == 'timeObs' else r['n']


def gen_req(rng, case):
  times = [when(case, r) for r in case['rows']]
  k = rng.choice([1, 1, 2, 3])
  leads = rng.sample([0, 60, 120, 360, 720, 30, 10], rng.choice([1, 1, 2, 3]))
  if rng.random() < .6:
    leads.sort()
  inits = []
  for _ in range(k):
    x = rng.choice(times)
    if case['tol'] is not None and rng.random() < .5:
      a, b = tol_of(case)
      x -= rng.choice([a, b])  # a row exactly at an end of the window
    x -= rng.choice(leads)
    if rng.random() < .2:
      x += rng.choice([-1, 1, 5])
    if case['window'] in ('none', 'none_tol'):
      x += leads[0]
    if x not in inits:
      inits.append(x)
  if rng.random() < .6:
    inits.sort()
  if case['window'] == 'slice':
    a = rng.choice([0, 0, 0, 60, 360, -60])
    if rng.random() < .5:
      inits[0] = rng.choice(times) - a
      inits = inits[:1] + [x for x in inits[1:] if x != inits[0]]
    b = a + rng.choice([1, 60, 360, 1440])
    if rng.random() < .5:  # a row exactly at the end
      c = [t - inits[0] for t in times if t - inits[0] > a]
      if c:
        b = rng.choice(c)
        b = min(b, a + 2880)
    leads = [a, b]
  return dict(i=inits, l=leads, unit=rng.choice(['ns', 'ns', 's', 'm']))


def gen_op(rng, case):
  op = rng.choice(['load'] * 4 + ['fault'] * 4 + ['cut', 'threads', 'copy',
                                                  'pipeline'])
  return dict(op=op, req=gen_req(rng, case), reqs=[gen_req(rng, case)
                                                   for _ in range(2)],
              kinds=[rng.choice(obsim.KINDS) for _ in range(rng.choice([1, 1, 2]))],
              needed=rng.choice([1, 1, 1, 0]), k=rng.randrange(10**6),
              err=rng.randrange(100), at=rng.randint(1, 80), which=rng.randrange(99),
              exc=rng.choice(['MemoryError', 'KeyboardInterrupt', 'OSError']),
              how=rng.choice(['cloudpickle', 'deepcopy', 'pickle']),
              chunks=[rng.choice([0, 1, 2]), rng.choice([0, 1, 2])],
              plan=er.gen_plan(rng, faults=rng.random() < .5),
              handle=rng.randrange(3))


# ------------------------------------------------------------------ source ----
def base(case):
  return np.datetime64(case['base'], 'ns')


def at(case, minutes):
  return base(case) + np.asarray(minutes) * M


def part_name(case, minutes):
  """Partition path of one time, written out independently."""
  t = pd.Timestamp(at(case, minutes))
  s = f'/obs/year={t.year}/month={t.month}/'
  if case['part'] == 'month':
    return s + f'{t:%Y-%m}.parquet'
  s += f'day={t.day}/'
  if case['part'] == 'day':
    return s + f'{t:%Y-%m-%d}.parquet'
  return s + f'hour={t.hour}/{t:%Y-%m-%dT%H}.parquet'


def col(case, name):
  """Stored column name."""
  if case['metar']:
    return METAR[name][0] if name in METAR else name
  if case['rename'] and name in ('t', 'u'):
    return f'raw_{name}'
  if case['rename'] == 2 and name in ('latitude', 'longitude'):
    return name[:3]
  return name


def res(case, name):
  """Name in the answer."""
  return METAR[name][1] if case['metar'] and name in METAR else name


def frame(case, rows):
  tt = lambda key: np.array([at(case, r[key]) for r in rows],
                            'datetime64[ns]').astype(
                                f'datetime64[{case["tunit"]}]')
  f = lambda key: np.array([np.nan if r[key] is None else r[key] for r in rows],
                           float)
  df = pd.DataFrame({
      'timeObs': tt('o'), 'timeNominal': tt('n'),
      'stationName': pd.Series([f'S{r["s"]}' for r in rows], dtype=object),
      col(case, 'latitude'): f('la'), col(case, 'longitude'): f('lo'),
      'elevation': f('el'), col(case, 't'): f('t'), col(case, 'u'): f('u')})
  if case['metar']:
    df[col(case, 't') + 'DD'] = pd.Series([r['q'] for r in rows], dtype=object)
    df[col(case, 'u') + 'DD'] = pd.Series([r['q2'] for r in rows], dtype=object)
  if case['empty'] and not rows:
    df = df.astype(object)  # what an empty file written without types holds
  return df


def content_of(case):
  by_file = collections.defaultdict(list)
  for i, r in enumerate(case['rows']):
    by_file[part_name(case, r['n'])].append(i)
  rs = np.random.RandomState(case['shuffle'])
  for k in sorted(by_file):
    by_file[k] = [by_file[k][i] for i in rs.permutation(len(by_file[k]))]

  def get(path):
    if not re.fullmatch(r'/obs/year=\d+/month=\d+/(day=\d+/(hour=\d+/)?)?'
                        r'[-T0-9]+\.parquet', path):
      return None
    df = frame(case, [case['rows'][i] for i in by_file.get(path, [])])
    buf = io.BytesIO()
    df.to_parquet(buf, index=False, row_group_size=case['groups'],
                  coerce_timestamps=None)
    return buf.getvalue()
  return get, by_file


# ------------------------------------------------------------------ oracle ----
def tol_of(case):
  t = case['tol']
  return (-t, t) if not isinstance(t, list) else tuple(t)


def windows(case, req):
  """(init, lead, start, stop) of every requested pair; stop None: exact."""
  for i in req['i']:
    if case['window'] == 'slice':
      yield i, None, i + req['l'][0], i + req['l'][1]
    else:
      for l in (req['l'] if not case['window'].startswith('none') else [None]):
        v = i + (l or 0)
        if case['tol'] is None:
          yield i, l, v, None
        else:
          a, b = tol_of(case)
          yield i, l, v + a, v + b


def members(case, start, stop):
  for r in case['rows']:
    x = when(case, r)
    if (x == start if stop is None else start <= x < stop
        or (case['end'] and x == stop)):
      yield r


def answer(case, r):
  """Row as the loader should hand it out."""
  t, u = r['t'], r['u']
  lo, el = r['lo'], r['el']
  if case['prep'] == 1:
    t = None if t is None else t * 2 + 1
  if case['metar']:
    bad = ('Z', 'B', 'X', 'Q', 'k')
    if r['q'] in bad and 't' in case['vars']:
      t = None
    if r['q2'] in bad and 'u' in case['vars']:
      u = None
    lo = lo % 360
    el = None if el >= 9999 else el
  if case['proc']:
    t = None if t is None else t * 4
  return dict(t=t, u=u, lo=lo, el=el, la=r['la'], s=f'S{r["s"]}',
              v=when(case, r), pick=r['o'])


def expected(case, req):
  """List of groups; each group is a list of alternatives per row."""
  out = []
  for i, l, a, b in windows(case, req):
    rows = list(members(case, a, b))
    if case['prep'] == 2:
      rows = [r for r in rows if r['s'] != 2]
    rows = [answer(case, r) for r in rows]
    v = i + (l or 0)
    if case['dup']:
      by = collections.defaultdict(list)
      for r in rows:
        by[r['s']].append(r)
      for s in sorted(by):
        if case['pick']:
          d = min(abs(r['pick'] - v) for r in by[s])
          alts = [r for r in by[s] if abs(r['pick'] - v) == d]
        else:
          alts = by[s]
        out.append((i, l, alts))
    else:
      out.extend((i, l, [r]) for r in rows)
  return out


def key(case, i, l, r, names):
  """What identifies one answered row for the variables `names`."""
  k = [r['v'], r['s']] if has(case, 'stationName') else [r['v']]
  if has(case, 'latitude'):
    k += [float(r['la']), float(r['lo'])]
  if case['metar']:
    k += [r['el'] if r['el'] is None else float(r['el'])]
  if not case['window'].startswith('none'):
    k += [i, r['v'] - i if l is None else l]
  for n in names:
    k.append(None if r[n] is None else float(r[n]))
  return tuple(k)


def has(case, name):
  return case['metar'] or name in coords_of(case)


def coords_of(case):
  return [[], ['stationName'], ['latitude', 'longitude', 'stationName']][
      case['coords']]


def kept(case, r, names):
  return not case['dropna'] or all(r[n] is not None for n in names)


def check_answer(case, req, got, what):
  names = {res(case, v): v for v in case['vars']}
  if set(map(str, got)) != set(names):
    raise core.Violation('variables', f'{what}: {sorted(map(str, got))} instead '
                         f'of {sorted(names)}')
  exp = expected(case, req)
  n = 0
  groups = [[v] for v in case['vars']] if case['split'] else [case['vars']]
  for g in groups:
    arrays = [got[res(case, v)] for v in g]
    have = collections.Counter(rows_in(case, arrays, what))
    want = []
    for i, l, alts in exp:
      alts = [None if not kept(case, r, g) else key(case, i, l, r, g) for r in alts]
      want.append(alts)
    n += sum(have.values())
    fixed = collections.Counter(a[0] for a in want if len(set(a)) == 1
                                and a[0] is not None)
    free = [a for a in want if len(set(a)) > 1]
    missing = fixed - have
    extra = have - fixed
    for alts in free:  # one of several equally close duplicates
      for a in alts:
        if a is not None and extra[a] > 0:
          extra[a] -= 1
          break
      else:
        if None not in alts:
          missing[alts[0]] += 1
    extra = +extra
    if missing or extra:
      f = lambda c: sorted(map(str, c.elements()))[:3]
      raise core.Violation(
          'missing-observations' if missing else 'extra-observations',
          f'{what}: request for minutes {req["i"]} leads {req["l"]}: missing '
          f'{sum(missing.values())} {f(missing)} extra {sum(extra.values())} '
          f'{f(extra)} of {sum(fixed.values()) + len(free)}')
    for v, a in zip(g, arrays):
      if case['mask']:
        if 'mask' not in a.coords:
          raise core.Violation('mask', f'{what} {v}: no mask')
        if not np.array_equal(a['mask'].values, ~np.isnan(a.values)):
          raise core.Violation('mask', f'{what} {v}: wrong mask')
  return n


def minutes(case, x, what):
  d = (x - base(case)) / M
  if d != d or d != int(d):
    raise core.Violation('labels', f'{what}: time {x}')
  return int(d)


def rows_in(case, arrays, what):
  a = arrays[0]
  if a.dims != ('index',):
    raise core.Violation('shape', f'{what}: dimensions {a.dims}')
  size = a.sizes['index']
  if any(b.sizes['index'] != size for b in arrays):
    raise core.Violation('shape', f'{what}: lengths differ')
  if not size:
    return []
  c = {k: a.coords[k].values for k in a.coords if k != 'index'}
  need = ['valid_time'] + ([] if case['window'].startswith('none') else [
      'init_time', 'lead_time']) + [res(case, x) for x in coords_of(case)]
  if set(need) - set(c):
    raise core.Violation('labels', f'{what}: no coordinates '
                         f'{sorted(set(need) - set(c))}')
  out = []
  nn = lambda x: None if x != x else float(x)
  ns = lambda x: np.asarray(x).astype('datetime64[ns]')
  for j in range(size):
    k = [minutes(case, ns(c['valid_time'][j]), what)]
    if has(case, 'stationName'):
      k.append(str(c['stationName'][j]))
    if has(case, 'latitude'):
      k += [float(c['latitude'][j]), float(c['longitude'][j])]
    if case['metar']:
      k.append(nn(c['elevation'][j]))
    if 'init_time' in need:
      k.append(minutes(case, ns(c['init_time'][j]), what))
      k.append(int(np.asarray(c['lead_time'][j]).astype('timedelta64[ns]') / M))
    out.append(tuple(k + [nn(b.values[j]) for b in arrays]))
  return out


# --------------------------------------------------------------- execution ----
def prep_scale(df):
  name = [c for c in df if c in ('t', 'raw_t', 'temperature')][0]
  df[name] = df[name] * 2 + 1
  return df


def prep_filter(df):
  return df[df['stationName'] != 'S2']


def proc_t(chunk):
  out = {k: (v * 4 if k in ('t', '2m_temperature') else v)
         for k, v in chunk.items()}
  return xr.Dataset(out) if isinstance(chunk, xr.Dataset) else out


def build(case, path):
  from weatherbenchX.data_loaders import sparse_parquet as sp
  d = lambda x: np.timedelta64(x, 'm')
  kw = dict(partitioned_by=case['part'], time_dim=case['by'],
            variables=[res(case, v) for v in case['vars']],
            split_variables=bool(case['split']), dropna=bool(case['dropna']),
            include_slice_end_time=bool(case['end']), file_tolerance=d(case['ft']),
            remove_duplicates=bool(case['dup']),
            pick_closest_duplicate_by=case['pick'],
            preprocessing_fn=[None, prep_scale, prep_filter][case['prep']],
            add_nan_mask=bool(case['mask']),
            process_chunk_fn=proc_t if case['proc'] else None)
  if case['tol'] is not None:
    t = case['tol']
    kw['tolerance'] = (d(t[0]), d(t[1])) if isinstance(t, list) else d(t)
  if case['metar']:
    return sp.METARFromParquet(path, **kw)
  names = {col(case, x): x for x in ('t', 'u', 'latitude', 'longitude')
           if col(case, x) != x}
  return sp.SparseObservationsFromParquet(
      path, coordinate_variables=coords_of(case), rename_variables=names or None,
      observation_dim='stationName' if case['dup'] else None, **kw)


def load(case, h, req):
  u = req['unit']
  it = at(case, req['i']).astype(f'datetime64[{u}]')
  lt = (np.array(req['l']) * M).astype(f'timedelta64[{u}]')
  if case['window'] == 'slice':
    lt = slice(lt[0], lt[1])
  elif case['window'].startswith('none'):
    lt = None
  out = h.load_chunk(it, lt)
  return out


def execute(case, ch, st):
  np.seterr(all='ignore')
  case = copy.deepcopy(case)
  scratch = tempfile.mkdtemp(prefix='vsim-c10-') if case['src'] == 'local' else None
  with core.World(ch) as w:
    try:
      body(w, ch, case, scratch)
    finally:
      if scratch:
        shutil.rmtree(os.path.abspath(scratch))
  st.absorb(w)
  st.nontrivial = True


class Local:
  """The same files in a scratch directory on disk."""

  def __init__(self, case, store, scratch):
    self.store = store
    self.root = scratch
    names = {part_name(case, x) for x in range(-3 * 1440, 7 * 1440, 60)}
    for n in names | set(content_of(case)[1]):
      os.makedirs(os.path.dirname(scratch + n), exist_ok=True)
      self.put(n)

  def put(self, name):
    data = self.store.damaged(name)
    if data is None:
      if os.path.exists(self.root + name):
        os.remove(self.root + name)
    else:
      with open(self.root + name, 'wb') as f:
        f.write(data)


def body(w, ch, case, scratch):
  get, by_file = content_of(case)
  store = obsim.ObStore(w, get)
  obsim.set_store(store)
  fsim.set_storage(fsim.Storage(w))
  local = Local(case, store, scratch) if scratch else None
  path = scratch + '/obs' if scratch else 'obs:///obs'
  handles = [build(case, path)]
  n = 0
  for num, op in enumerate(case['ops']):
    h = handles[op['handle'] % len(handles)]
    kind, req = op['op'], op['req']
    what = f'op {num} ({kind})'
    w.log(what)
    if kind == 'load':
      n += check_answer(case, req, load(case, h, req), what)
    elif kind == 'fault':
      n += fault(w, case, h, op, store, local, by_file, what)
    elif kind == 'cut':
      exc = dict(MemoryError=MemoryError, KeyboardInterrupt=KeyboardInterrupt,
                 OSError=OSError)[op['exc']]('injected')
      cut = core.interrupt_at_line(op['at'], exc)
      out = None
      try:
        with cut:
          out = load(case, h, req)
      except BaseException as e:  # pylint: disable=broad-except
        if e is not exc and exc not in (e.__cause__, e.__context__):
          raise
      if cut.fired:
        w.count('fault.interrupted_load')
      if out is not None:
        n += check_answer(case, req, out, what)
      n += check_answer(case, req, load(case, h, req), what + ' retried')
    elif kind == 'copy':
      if op['how'] == 'deepcopy':
        new = copy.deepcopy(h)
      elif case['metar'] or op['how'] == 'cloudpickle':
        import cloudpickle
        new = pickle.loads(cloudpickle.dumps(h))
      else:
        new = pickle.loads(pickle.dumps(h))
      handles.append(new)
      w.count('probe.copied')
      n += check_answer(case, req, load(case, new, req), what)
    elif kind == 'threads':
      tr = core.line_tracer(w, .6)
      tasks = [w.spawn(f't{i}', lambda r=r: load(case, h, r), tracer=tr)
               for i, r in enumerate(op['reqs'])]
      w.run_to_end()
      for t, r in zip(tasks, op['reqs']):
        if t.error is not None:
          raise t.error
        n += check_answer(case, r, t.result, f'{what} {t.name}')
      w.count('probe.threads')
    else:
      n += pipeline(w, ch, case, h, req, op, what)
    probes(w, case, req)
  w.count('probe.rows_checked', n)
  w.count('partition.' + case['part'])
  w.count('window.' + case['window'])


def probes(w, case, req):
  for _, _, a, b in windows(case, req):
    rows = list(members(case, a, b))
    if b is not None and any(when(case, r) == b for r in case['rows']):
      w.count('probe.row_at_window_end')
    if b is not None and any(when(case, r) == a for r in rows):
      w.count('probe.row_at_window_start')
    if len({part_name(case, r['n']) for r in rows}) > 1:
      w.count('probe.window_over_several_files')
    if any(part_name(case, when(case, r)) != part_name(case, r['n'])
           for r in rows):
      w.count('probe.row_in_neighbouring_file')


def fault(w, case, h, op, store, local, by_file, what):
  req = op['req']
  needed = sorted({part_name(case, r['n']) for _, _, a, b in windows(case, req)
                   for r in members(case, a, b)})
  pool = needed
  if not op['needed'] or not needed:
    x = req['i'][0] + (req['l'][0] if case['window'] != 'none' else 0)
    pool = [part_name(case, x)]
  for j, kind in enumerate(op['kinds']):
    if local and kind in ('stat', 'open', 'read', 'short'):
      kind = ['missing', 'zero', 'truncated', 'text'][op['err'] % 4]
    p = pool[(op['which'] + j) % len(pool)]
    size = len(store.get(p) or b'x')
    store.faults[p] = dict(kind=kind, k=op['k'] % size, err=op['err'])
    if local:
      local.put(p)
  out = None
  try:
    out = load(case, h, req)
  except Exception as e:  # pylint: disable=broad-except
    if not store.faults:
      raise
    w.log(f'failed: {type(e).__name__}')
    w.count('probe.failed_loudly')
    for f in store.faults.values():
      w.count('fault.' + f['kind'])
  n = 0
  if out is not None:
    # Every observation must be there all the same.
    try:
      n += check_answer(case, req, out, what)
    except core.Violation as e:
      raise core.Violation(
          'fault-hidden', f'{e.message} (with '
          f'{[(p, f["kind"]) for p, f in store.faults.items()]})')
    w.count('probe.unaffected_by_fault')
  faulty = list(store.faults)
  store.faults.clear()
  store.hit.clear()
  if local:
    for p in faulty:
      local.put(p)
  return n + check_answer(case, req, load(case, h, req), what + ' recovered')


def pipeline(w, ch, case, h, req, op, what):
  """Gridded predictions evaluated at the observations, in chunks of time."""
  import apache_beam as beam
  from weatherbenchX import aggregation
  from weatherbenchX import beam_pipeline
  from weatherbenchX import time_chunks
  from weatherbenchX.data_loaders import xarray_loaders as xl
  from weatherbenchX.metrics import deterministic
  if case['window'] not in ('exact', 'tol') or not has(case, 'latitude') or (
      case['dup'] and len(expected(case, req)) != sum(
          len(a) for _, _, a in expected(case, req))):
    return check_answer(case, req, load(case, h, req), what)
  lat, lon = np.arange(-90., 91., 30.), np.arange(-180., 360., 60.)
  init, lead = at(case, req['i']), np.array(req['l']) * M
  rs = np.random.RandomState(case['seed'] % 5000)
  names = [res(case, v) for v in case['vars']]
  p = xr.Dataset({v: (('init_time', 'lead_time', 'latitude', 'longitude'),
                      rs.randint(-12, 13, size=(len(init), len(lead), len(lat),
                                                len(lon))) / 4.0)
                  for v in names}, dict(init_time=init, lead_time=lead,
                                        latitude=lat, longitude=lon))
  p = p.sortby(['init_time', 'lead_time'])
  pl = xl.PredictionsFromXarray(
      ds=p, rename_dimensions=None,
      interpolation=usercode.AtObservations())
  metrics = dict(mae=deterministic.MAE())
  agg = aggregation.Aggregator(reduce_dims=['index'], skipna=True)
  ci, cl = op['chunks']
  r = beamsim.SimRunner(w, beamsim.Plan(**op['plan']))
  out = f'sim:///out/{ch.pos}.nc'
  with beam.Pipeline(runner=r) as root:
    beam_pipeline.define_pipeline(
        root, time_chunks.TimeChunks(init, lead, ci, cl), pl,
        er.Recording(h, 'T'), metrics, agg, out_path=out)
  r.drain_zombies()
  got = er.load_nc(fsim.storage().content(out[len('sim://'):]))
  n = 0
  for v in case['vars']:
    g = [v] if case['split'] else case['vars']
    errs = []
    for i, l, alts in expected(case, req):
      a = alts[0]
      if a[v] is None or not kept(case, a, g):
        continue
      x = p[res(case, v)].sel(init_time=at(case, i), lead_time=l * M).isel(
          latitude=usercode.nearest(lat, a['la']),
          longitude=usercode.nearest(lon, a['lo']))
      errs.append(abs(float(x) - a[v]))
    m = got.get(f'mae.{res(case, v)}')
    if not errs:
      if m is not None and np.isfinite(m.values).any():
        raise core.Violation('made-up', f'{what}: {v} is {float(m)} without '
                             'observations')
      continue
    if m is None:
      raise core.Violation('missing-observations', f'{what}: no result for {v}')
    want = float(np.mean(errs))
    if not abs(float(m) - want) <= 1e-8 * max(1, abs(want)):
      raise core.Violation('missing-observations', f'{what}: MAE of {v} is '
                           f'{float(m)}, {want} over {len(errs)} observations')
    n += len(errs)
  w.count('probe.evaluated_in_chunks')
  return n


def shrink(case):
  for i in range(len(case['ops'])):
    c = copy.deepcopy(case)
    del c['ops'][i]
    if c['ops']:
      yield c
  k = len(case['rows'])
  while k >= 1:
    for i in range(0, len(case['rows']), k):
      c = copy.deepcopy(case)
      del c['rows'][i:i + k]
      if c['rows']:
        yield c
    k //= 2
  for j, op in enumerate(case['ops']):
    if len(op['req']['i']) > 1:
      c = copy.deepcopy(case)
      del c['ops'][j]['req']['i'][0]
      yield c
    if len(op['req']['l']) > 1 and case['window'] != 'slice':
      c = copy.deepcopy(case)
      del c['ops'][j]['req']['l'][0]
      yield c
    if len(op['kinds']) > 1:
      c = copy.deepcopy(case)
      c['ops'][j]['kinds'] = op['kinds'][:1]
      yield c
  for key_, v in (('metar', 0), ('prep', 0), ('proc', 0), ('mask', 0),
                  ('rename', 0), ('dropna', 0), ('split', 0), ('dup', 0),
                  ('empty', 0), ('tunit', 'ns'), ('groups', 1000),
                  ('vars', ['t'])):
    if case[key_] != v:
      c = copy.deepcopy(case)
      c[key_] = v
      if key_ == 'dup':
        c['pick'] = None
      yield c
