"""C05: partial aggregation states merge, split and restore freely."""
import copy
import io
import itertools
import math
import pickle
import random

import numpy as np
import xarray as xr

from vsim import core
from vsim import evalrun as er
from vsim import fsim
from vsim import gen

SHAPES = [
    ('init_time', 'lead_time'), ('init_time', 'station'), ('init_time',),
    ('init_time', 'lead_time', 'station'), ('init_time', 'pos'),
    ('station', 'init_time', 'region')]
NAMES = ['SquaredError', 'Error', 'CRPSSkill_number_fair=True', 'a.b', 'x y(1,2)']
VARS = ['t', '2m_temperature', 'u.v']


def setup():
  er.setup()


def make(rng, tier, index):
  big = tier != 'quick'
  kind = rng.choice(['tree', 'tree', 'flat', 'single', 'deep'])
  leaves = []
  for n in rng.sample(NAMES, rng.randint(1, 3)):
    for v in rng.sample(VARS, rng.randint(1, 2)):
      leaves.append(dict(stat=n, var=v, dims=rng.choice(SHAPES)))
  same = rng.random() < 0.6  # all leaves share their labels
  return dict(
      kind=kind, leaves=leaves, same=same, seed=rng.randrange(10**9),
      n_src=rng.randint(1, 12 if big else 6), n_init=rng.randint(1, 4),
      n_station=rng.randint(1, 4), n_region=2, n_lead=rng.randint(1, 3),
      n_pos=rng.randint(1, 3), init_type=rng.choice(['time', 'time', 'int']),
      station_type=rng.choice(['object', 'U', 'int', 'float']),
      sparse=rng.choice([0, 0.3, 0.6]), p_nan=rng.choice([0, 0, 0, 0.1]),
      dtype=rng.choice(['float64', 'float64', 'float32']),
      extra=rng.choice(['', 'elev', 'valid', 'launch', 'scalar', 'vary']),
      attrs=rng.choice([0, 1]), empties=rng.choice([0, 0, 1, 2]),
      n_ops=rng.randint(4, 60 if big else 24), p_crash=rng.choice([0, 0, .02, .08]),
      p_fs=rng.choice([0, 0, .1]), reduce=rng.choice([0, 1, 1]),
      metrics=rng.choice([0, 1, 1]))


# --------------------------------------------------------------- the model ----
class Model:
  """Exact content of a state: {leaf: (dims, {dim: labels}, cells)} twice."""

  def __init__(self, parts=None):
    self.parts = parts  # None: the empty state


def merge_models(models):
  models = [m for m in models if m.parts is not None]
  if not models:
    return Model()
  out = {}
  for key in models[0].parts:
    dims = models[0].parts[key][0]
    labels = {d: set() for d in dims}
    cells = {}
    for m in models:
      _, lab, c = m.parts[key]
      for d in dims:
        labels[d] |= lab[d]
      for k, x in c.items():
        cells[k] = cells.get(k, 0.0) + x
    out[key] = (dims, labels, cells)
  return Model(out)


def reduce_model(m, drop):
  if m.parts is None:
    return m
  out = {}
  for key, (dims, lab, cells) in m.parts.items():
    keep = [i for i, d in enumerate(dims) if d not in drop]
    c = {}
    for k, x in cells.items():
      kk = tuple(k[i] for i in keep)
      c[kk] = c.get(kk, 0.0) + x
    out[key] = (tuple(dims[i] for i in keep),
                {dims[i]: lab[dims[i]] for i in keep}, c)
  return Model(out)


def select_model(m, dim, want):
  out = {}
  for key, (dims, lab, cells) in m.parts.items():
    i = dims.index(dim)
    out[key] = (dims, dict(lab, **{dim: lab[dim] & want}),
                {k: x for k, x in cells.items() if k[i] in want})
  return Model(out)


def scale_model(m, f):
  if m.parts is None:
    return m
  return Model({k: (d, l, {a: x * f for a, x in c.items()})
                for k, (d, l, c) in m.parts.items()})


# ------------------------------------------------------------ real sources ----
def label_values(case, dim):
  n = {'init_time': case['n_init'], 'lead_time': case['n_lead'],
       'station': case['n_station'], 'region': case['n_region'],
       'pos': case['n_pos']}[dim]
  if dim == 'init_time':
    if case['init_type'] == 'time':
      return gen.T0 + np.arange(n) * 12 * gen.H
    return np.arange(n) * 10
  if dim == 'lead_time':
    return np.arange(n) * 6 * gen.H
  if dim == 'region':
    return np.array(['north', 'south'][:n])
  if dim == 'pos':
    return np.arange(n)
  x = {'object': ['KA', 'KBB', 'L', 'ZZ'], 'U': ['KA', 'KBB', 'L', 'ZZ'],
       'int': [850, 500, 1000, 7], 'float': [.5, -1., 2.25, 100.]}[
           case['station_type']][:n]
  return np.array(x, {'object': object, 'U': 'U8', 'int': 'int64',
                      'float': 'float64'}[case['station_type']])


def source(case, k):
  """(state, model) number k."""
  from weatherbenchX import aggregation
  rs = np.random.RandomState((case['seed'] + 7919 * k) % (2**32 - 1))
  stats, weights, parts = {}, {}, {}

  def subset(dim):
    x = label_values(case, dim)
    if dim in ('pos', 'region'):
      return np.arange(len(x))
    keep = np.where(rs.random_sample(len(x)) >= case['sparse'])[0]
    return keep if len(keep) or rs.random_sample() < .1 else np.arange(len(x))

  shared = {d: subset(d) for d in ('init_time', 'lead_time', 'station', 'region',
                                   'pos')}
  order = list(range(len(case['leaves'])))
  rs.shuffle(order)
  for j in order:
    leaf = case['leaves'][j]
    dims = tuple(leaf['dims'])
    idx = {d: (shared[d] if case['same'] else subset(d)) for d in dims}
    coords = {d: label_values(case, d)[idx[d]] for d in dims if d != 'pos'}
    shape = [len(idx[d]) for d in dims]
    for which, into in (('s', stats), ('w', weights)):
      x = rs.randint(-12, 13, size=shape) / 4.0
      if which == 'w':
        x = rs.randint(0, 5, size=shape) / 2.0
      elif case['p_nan']:
        x = np.where(rs.random_sample(shape) < case['p_nan'], np.nan, x)
      da = xr.DataArray(x.astype(case['dtype']), dims=dims, coords=coords,
                        name=leaf['var'])
      e = case['extra']
      if e in ('elev', 'vary') and 'station' in dims and (e == 'elev' or k % 2):
        da = da.assign_coords(elevation=('station', idx['station'] * 10.0))
      if e == 'launch' and 'station' in dims:
        da = da.assign_coords(launch=('station', gen.T0 + idx['station'] * gen.H))
      if e == 'valid' and {'init_time', 'lead_time'} <= set(dims) and (
          case['init_type'] == 'time'):
        da = da.assign_coords(valid_time=da.init_time + da.lead_time)
      if e == 'scalar':
        da = da.assign_coords(height=2.0)
      if case['attrs']:
        da.attrs = dict(units='K', source=k)
      into.setdefault(leaf['stat'], {})[leaf['var']] = da
      canon = [[str(label_key(v)) for v in label_values(case, d)[idx[d]]]
               for d in dims]
      cells = {}
      for pos in np.ndindex(*shape):
        cells[tuple(canon[a][p] for a, p in enumerate(pos))] = float(
            da.values[pos])
      parts[which, leaf['stat'], leaf['var']] = (
          dims, {d: set(c) for d, c in zip(dims, canon)}, cells)
  kind = case['kind']
  if kind == 'flat':  # one level of names
    f = lambda t: {f'{a} {b}': x for a, y in t.items() for b, x in y.items()}
    stats, weights = f(stats), f(weights)
  elif kind == 'single':
    a = case['leaves'][0]
    stats = stats[a['stat']][a['var']]
    weights = weights[a['stat']][a['var']]
    parts = {k: v for k, v in parts.items() if k[1:] == (a['stat'], a['var'])}
  elif kind == 'deep':
    stats, weights = {'m': stats, 'n': {'o': stats}}, {
        'm': weights, 'n': {'o': copy.deepcopy(weights)}}
  return aggregation.AggregationState(stats, weights), Model(parts)


def label_key(v):
  if isinstance(v, np.datetime64):
    return v.astype('datetime64[ns]')
  if isinstance(v, np.timedelta64):
    return int(v.astype('timedelta64[ns]').astype('int64'))
  if isinstance(v, (str, bytes, np.str_)):
    return str(v)
  return float(v)


def leaf_arrays(case, state):
  """{(which, stat, var): DataArray} of a real state."""
  out = {}
  kind = case['kind']
  for which, tree in (('s', state.sum_weighted_statistics),
                      ('w', state.sum_weights)):
    if kind == 'single':
      a = case['leaves'][0]
      out[which, a['stat'], a['var']] = tree
      continue
    for l in case['leaves']:
      a, b = l['stat'], l['var']
      if kind == 'flat':
        out[which, a, b] = tree[f'{a} {b}']
      elif kind == 'deep':
        out[which, a, b] = tree['m'][a][b]
        out[which + '2', a, b] = tree['n']['o'][a][b]
      else:
        out[which, a, b] = tree[a][b]
  n = sum(1 for _ in walk(state.sum_weighted_statistics))
  want = len({k for k in out if k[0] in ('s', 's2')})
  if n != want:
    raise core.Violation('leaves', f'{n} statistics in the state instead of {want}')
  return out


def walk(tree):
  if isinstance(tree, xr.DataArray):
    yield tree
  else:
    for x in tree.values():
      yield from walk(x)


def compare(case, state, model, what):
  if model.parts is None:
    if state.sum_weighted_statistics is not None:
      raise core.Violation('zero-state', f'{what}: the sum of empty states is '
                           'not the empty state')
    return
  if state.sum_weighted_statistics is None:
    raise core.Violation('lost-state', f'{what}: the state is empty')
  tol = 1e-4 if case['dtype'] == 'float32' else 1e-10
  for key, da in leaf_arrays(case, state).items():
    dims, labels, cells = model.parts[(key[0][0],) + key[1:]]
    if set(da.dims) != set(dims):
      raise core.Violation('dims', f'{what}: {key} has dims {da.dims} instead '
                           f'of {dims}')
    da = da.transpose(*dims)
    cols = []
    for d in dims:
      if d == 'pos':
        c = [str(float(i)) for i in range(da.sizes[d])]
        want = {str(float(i)) for i in range(case['n_pos'])}
      else:
        if d not in da.coords:
          raise core.Violation('labels', f'{what}: {key} has no labels for {d}')
        c = [str(label_key(v)) for v in da[d].values]
        want = labels[d]
      if len(set(c)) != len(c) or set(c) != want:
        raise core.Violation('labels', f'{what}: {key} has {d} labels {c} instead '
                             f'of {sorted(want)}')
      cols.append(c)
    vals = np.asarray(da.values, float)
    for pos in np.ndindex(*vals.shape):
      k = tuple(cols[a][p] for a, p in enumerate(pos))
      w = cells.get(k, 0.0)
      g = float(vals[pos])
      if (g != g) != (w != w) or (w == w and abs(g - w) > tol * (1 + abs(w))):
        raise core.Violation('wrong-total', f'{what}: {key} is {g!r} instead of '
                             f'{w!r} at {dict(zip(dims, k))}')


def snap_state(s):
  if s.sum_weighted_statistics is None:
    return None
  f = lambda t: gen.snap({'x': t}) if isinstance(t, xr.DataArray) else {
      k: f(v) for k, v in t.items()}
  attrs = [repr(sorted(map(str, a.attrs.items()))) for a in walk(
      s.sum_weighted_statistics)]
  names = [str(a.name) for a in walk(s.sum_weighted_statistics)]
  return f(s.sum_weighted_statistics), f(s.sum_weights), attrs, names


# -------------------------------------------------------------- operations ----
def storable(case):
  """Can the flat Dataset form hold the states? (documented limits)"""
  if case['kind'] == 'single' or not case['same']:
    return False
  if any('/' in l['stat'] or '#' in l['stat'] for l in case['leaves']):
    return False
  return True


def restore_forms(case, state):
  out = ['pickle', 'copy', 'cloudpickle']
  if case['kind'] != 'single':
    out.append('tree')
    # Empty text labels lose their type in such files.
    if all(x.size for x in walk(state.sum_weighted_statistics)):
      out.append('tree_zarr')
  if storable(case):
    out += ['dataset', 'separator']
    # netCDF-3 files (all that this sandbox can write) cannot hold empty
    # dimensions.
    if all(x.size for x in walk(state.sum_weighted_statistics)):
      out += ['netcdf', 'file']
  return out


def roundtrip(state, form, w):
  from weatherbenchX import aggregation
  A = aggregation.AggregationState
  if form == 'pickle':
    return pickle.loads(pickle.dumps(state))
  if form == 'copy':
    return copy.deepcopy(state)
  if form == 'cloudpickle':
    from apache_beam.internal import pickler
    return pickler.loads(pickler.dumps(state))
  if form == 'tree':
    return A.from_data_tree(state.to_data_tree())
  if form == 'tree_zarr':
    import zarr
    store = zarr.storage.MemoryStore()
    tree = state.to_data_tree()
    tree.to_zarr(store, consolidated=False)
    back = xr.open_datatree(store, engine='zarr', consolidated=False,
                            decode_timedelta=True)
    return A.from_data_tree(back.load())
  if form == 'dataset':
    return A.from_dataset(state.to_dataset())
  if form == 'separator':
    return A.from_dataset(state.to_dataset(separator='|'), separator='|')
  if form == 'netcdf':
    ds = state.to_dataset().drop_attrs(deep=True)
    return A.from_dataset(er.load_nc(bytes(ds.to_netcdf())))
  raise KeyError(form)


def combine_fn(states, ch):
  """Adds states up leaf by leaf with the Beam combiner, in a random tree."""
  from weatherbenchX import aggregation, beam_utils

  def one(arrays):
    fn = beam_utils.CombiningSum()
    accs = [fn.create_accumulator() for _ in range(1 + ch.pick(3))]
    for a in ch.shuffled(list(arrays)):
      i = ch.pick(len(accs))
      accs[i] = fn.add_input(accs[i], a)
      if ch.flip(0.2):
        accs[i] = pickle.loads(pickle.dumps(accs[i]))
    while len(accs) > 1:
      k = 2 + ch.pick(len(accs) - 1)
      part = [accs.pop(ch.pick(len(accs))) for _ in range(k)]
      accs.append(fn.merge_accumulators(iter(part)))
      if ch.flip(0.2) and hasattr(fn, 'compact'):
        accs[-1] = fn.compact(accs[-1])
    return fn.extract_output(accs[0])

  def rec(trees):
    if isinstance(trees[0], xr.DataArray):
      return one(trees)
    return {k: rec([t[k] for t in trees]) for k in trees[0]}

  return aggregation.AggregationState(
      rec([s.sum_weighted_statistics for s in states]),
      rec([s.sum_weights for s in states]))


def execute(case, ch, st):
  from weatherbenchX import aggregation
  from weatherbenchX import beam_pipeline
  A = aggregation.AggregationState
  np.seterr(all='ignore')
  src = [source(case, k) for k in range(case['n_src'])]
  src += [(A.zero(), Model())] * case['empties']
  total = merge_models([m for _, m in src])
  drop = {'init_time'} if case['reduce'] else set()
  with core.World(ch) as w:
    store = fsim.Storage(w, p_fault=case['p_fs'])
    store.max_faults = 3
    fsim.set_storage(store)
    pool = [dict(s=s, m=m, red=set()) for s, m in src]
    durable = {}

    def on_worker(name, fn):
      """Runs one operation on a simulated worker that may crash in it."""
      t = w.spawn(name, fn)
      steps = 0
      while t in w.tasks:
        if t.state == 'ready' and not t.fenced and ch.flip(case['p_crash']):
          w.crash([t])
          w.count('fault.worker_crash')
        w.resume(t)
        steps += 1
        if steps > 10000:
          raise core.Violation('no-progress', name)
      if t.error is not None and not isinstance(t.error, core.SimCrash):
        if t.info.get('fs_faults'):
          return None
        raise t.error
      return None if t.fenced else (t.result,)

    def op_sum(parts, how):
      states = [p['s'] for p in parts]
      if how == 'plus':
        out = states[0]
        for s in states[1:]:
          out = out + s
        return out
      if how == 'iter':
        return A.sum(iter(states))
      if how == 'combiner' and all(
          s.sum_weighted_statistics is not None for s in states):
        return combine_fn(states, ch)
      return A.sum(list(states))

    def level(parts):
      """Brings states to the same remaining dimensions."""
      red = set().union(*[p['red'] for p in parts])
      for p in parts:
        if p['red'] != red:
          do_reduce(p, red - p['red'])

    def do_reduce(p, dims):
      how = ch.pick(3)
      s = p['s']
      before = snap_state(s)
      if s.sum_weighted_statistics is None:
        out = s.sum_along_dims(list(dims))
      elif how == 0:
        out = s.sum_along_dims(list(dims))
      elif how == 1:
        ones = xr.DataArray(
            np.ones(case['n_init']), dims=['init_time'],
            coords=dict(init_time=label_values(case, 'init_time')))
        out = s.dot(ones, dim='init_time' if ch.flip(.5) else ['init_time'])
        w.count('probe.dot')
      else:
        out = s.map(lambda x: x.sum('init_time', skipna=False))
      if snap_state(s) != before:
        raise core.Violation('operand-modified', f'reducing {dims}')
      p['m'] = reduce_model(p['m'], set(dims))
      p['red'] = p['red'] | set(dims)
      p['s'] = out
      compare(case, out, p['m'], f'reduced over {sorted(dims)}')
      w.log(f'reduce {sorted(dims)} {how}')
      w.count('probe.early_reduction')

    for _ in range(case['n_ops']):
      op = ch.pick(8)
      if op in (0, 1) and len(pool) > 1:
        k = 2 + ch.pick(min(3, len(pool) - 1))
        parts = [pool[i] for i in sorted(ch.shuffled(range(len(pool)))[:k])]
        parts = ch.shuffled(parts)
        if ch.flip(0.3):
          parts.insert(ch.pick(len(parts) + 1),
                       dict(s=A.zero(), m=Model(), red=set()))
          w.count('probe.zero_inserted')
        level([p for p in parts])
        how = ch.choice(['sum', 'plus', 'iter', 'combiner'])
        before = [snap_state(p['s']) for p in parts]
        got = on_worker('merge', lambda: op_sum(parts, how))
        for p, b in zip(parts, before):
          if snap_state(p['s']) != b:
            raise core.Violation('operand-modified', f'by {how}')
        if got is None:
          continue
        model = merge_models([p['m'] for p in parts])
        compare(case, got[0], model, how)
        w.log(f'merge {len(parts)} {how}')
        w.count('probe.merge_' + how)
        red = set().union(*[p['red'] for p in parts])
        gone = {id(p) for p in parts}
        pool = [p for p in pool if id(p) not in gone]
        pool.append(dict(s=got[0], m=model, red=red))
      elif op in (2, 3):
        p = pool[ch.pick(len(pool))]
        if p['s'].sum_weighted_statistics is None:
          continue
        form = ch.choice(restore_forms(case, p['s']))
        before = snap_state(p['s'])
        if form == 'file':
          path = f'/ckpt/{ch.pick(2)}.nc'
          old = durable.get(path)
          fn = lambda: list(beam_pipeline.WriteAggregationState(
              'sim://' + path).process(p['s']))
          got = on_worker('save', fn)
          new = (p['m'], set(p['red']))
          if got is None:  # crashed or failed: old or new content
            cands = [c for c in (old or []) + [new]]
            durable[path] = cands if store.content(path) is not None else None
            w.count('probe.save_interrupted')
          else:
            durable[path] = [new]
          if durable.get(path) is None:
            continue
          back = A.from_dataset(er.load_nc(store.content(path)))
          err = None
          for m, red in durable[path]:
            try:
              compare(case, back, m, 'restored from a file')
            except core.Violation as e:
              err = e
              continue
            err = None
            if got is not None:
              p['s'] = back
            break
          if err is not None:
            raise err
        else:
          got = on_worker('save', lambda: roundtrip(p['s'], form, w))
          if got is None:
            continue
          compare(case, got[0], p['m'], f'restored from {form}')
          p_new = got[0]
          if snap_state(p['s']) != before:
            raise core.Violation('operand-modified', f'by saving as {form}')
          p['s'] = p_new
        w.log(f'restore {form}')
        w.count('probe.form_' + form)
      elif op == 4:
        p = pool[ch.pick(len(pool))]
        if 'init_time' in drop and 'init_time' not in p['red']:
          do_reduce(p, {'init_time'})
      elif op == 5:  # split by initialisation time
        p = pool[ch.pick(len(pool))]
        if 'init_time' in p['red'] or p['m'].parts is None:
          continue
        labs = label_values(case, 'init_time')
        pick = [bool(ch.pick(2)) for _ in labs]
        for side in (True, False):
          want = labs[[x == side for x in pick]]
          s2 = p['s'].map(lambda x, want=want: x.sel(
              init_time=x.init_time.isin(want)))
          m2 = select_model(p['m'], 'init_time',
                            {str(label_key(v)) for v in want})
          compare(case, s2, m2, 'split')
          if side:
            first = dict(s=s2, m=m2, red=set(p['red']))
          else:
            p['s'], p['m'] = s2, m2
            pool.append(first)
        # Labels may be gone from both parts only if they were in neither.
        w.log('split')
        w.count('probe.split')
      elif op == 6:  # linear maps commute with sums
        p = pool[ch.pick(len(pool))]
        if p['m'].parts is None:
          continue
        up = p['s'].map(lambda x: x * 2)
        compare(case, up, scale_model(p['m'], 2.0), 'doubled')
        both = A.map_multi(lambda a, b: a - b, up, p['s'])
        compare(case, both, p['m'], 'difference of states')
        p['s'] = both
        w.log('linear')
      else:  # exchange the worker that holds the state: pickled transfer
        p = pool[ch.pick(len(pool))]
        p['s'] = pickle.loads(pickle.dumps(p['s']))
        w.log('move')
    # The remaining states in one more random round.
    while len(pool) > 1:
      parts = ch.shuffled(pool)[:2 + ch.pick(len(pool) - 1)]
      level(parts)
      out = op_sum(parts, ch.choice(['sum', 'plus', 'iter', 'combiner']))
      model = merge_models([p['m'] for p in parts])
      gone = {id(p) for p in parts}
      pool = [p for p in pool if id(p) not in gone]
      pool.append(dict(s=out, m=model,
                       red=set().union(*[p['red'] for p in parts])))
      w.log(f'final merge {len(parts)}')
    p = pool[0]
    if drop - p['red']:
      do_reduce(p, drop - p['red'])
    compare(case, p['s'], reduce_model(total, p['red']), 'the total')
    if case['metrics'] and p['m'].parts is not None:
      check_metrics(case, p['s'], reduce_model(total, p['red']), w)
    w.count('probe.total_checked')
  st.absorb(w)
  st.nontrivial = case['n_src'] + case['empties'] > 1
  st.result(f'{len(src)} {sorted(p["red"])}')


def check_metrics(case, state, model, w):
  """Mean statistics, and metric values where the tree has metrics' shape."""
  from weatherbenchX.metrics import deterministic as m
  tol = 1e-4 if case['dtype'] == 'float32' else 1e-10
  mean = state.mean_statistics()
  from weatherbenchX import aggregation
  arrays = leaf_arrays(case, aggregation.AggregationState(mean, mean))
  want = {}
  for (which, a, b), (dims, labels, cells) in model.parts.items():
    if which == 's':
      ws = model.parts['w', a, b][2]
      want[a, b] = (dims, labels, {
          k: (x / ws[k] if ws.get(k) else
              (math.nan if x == 0 or x != x else math.inf * x))
          for k, x in cells.items()})
  for (which, a, b), da in arrays.items():
    if which != 's':
      continue
    check_cells(da, want[a, b], f'mean of {a} {b}', tol)
  if case['kind'] != 'tree':
    return
  metrics = {}
  for l in case['leaves']:
    if l['stat'] == 'SquaredError':
      metrics['rmse'] = m.RMSE()
      metrics['mse'] = m.SquaredError()
    if l['stat'] == 'Error':
      metrics['bias'] = m.Error()
  if not metrics:
    return
  values = er.normal_times(state.metric_values(metrics))
  for name, stat, f in (('rmse', 'SquaredError', math.sqrt),
                        ('mse', 'SquaredError', float),
                        ('bias', 'Error', float)):
    for l in case['leaves']:
      if name in metrics and l['stat'] == stat:
        key = f'{name}.{l["var"]}'
        if key not in values:
          raise core.Violation('missing-variable', key)
        d, lab, cells = want[stat, l['var']]
        cells = {k: (f(x) if f is float or x >= 0 else math.nan)
                 for k, x in cells.items()}
        check_cells(values[key], (d, lab, cells), key, tol, outer=True)
        w.count('probe.metric_values')


def check_cells(da, want, what, tol, outer=False):
  dims, labels, cells = want
  da = da.transpose(*dims)
  cols = [[str(float(i)) for i in range(da.sizes[d])] if d == 'pos' else
          [str(label_key(v)) for v in da[d].values] for d in dims]
  vals = np.asarray(da.values, float)
  for d, c in zip(dims, cols):
    if d != 'pos' and not labels[d] <= set(c):
      raise core.Violation('labels', f'{what}: {d} labels {c} lack some of '
                           f'{sorted(labels[d])}')
  for pos in np.ndindex(*vals.shape):
    k = tuple(cols[a][p] for a, p in enumerate(pos))
    x = cells.get(k, math.nan)
    g = float(vals[pos])
    if g == x or (g != g and x != x):
      continue
    if not abs(g - x) <= tol * (1 + abs(x)):
      raise core.Violation('wrong-mean', f'{what}: {g!r} instead of {x!r} at '
                           f'{dict(zip(dims, k))}')


def shrink(case):
  for k, v in (('n_src', 1), ('n_ops', 4), ('empties', 0), ('p_crash', 0),
               ('p_fs', 0), ('extra', ''), ('attrs', 0), ('sparse', 0),
               ('p_nan', 0), ('n_init', 1), ('n_station', 1), ('n_lead', 1),
               ('dtype', 'float64'), ('same', True), ('kind', 'tree')):
    if case[k] != v:
      yield dict(case, **{k: v})
  if case['n_src'] > 2:
    yield dict(case, n_src=2)
  if len(case['leaves']) > 1:
    for l in case['leaves']:
      yield dict(case, leaves=[l])
