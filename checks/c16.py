"""C16: evaluations sharing objects in one process do not disturb each other.

Every evaluation runs alone with objects of its own, then all of them run in
threads, pre-empted at source lines, over one set of shared objects, and once
more afterwards; all three give the same results.  Every step is also run by
itself with its inputs compared before and after.
"""
import collections
import copy
import sys

import numpy as np
import xarray as xr

from vsim import core
from vsim import evalrun as er
from vsim import gen
from checks import c01
from checks import c04
from checks import c12

HANDED = []  # arguments handed to the objects under test, while recording


def setup():
  er.setup()
  c04.setup()
  import weatherbenchX.interpolations  # noqa
  for name in ('climatology', 'seeps_climatology', 'land_fraction', '_thr'):
    f = getattr(gen, name)

    def g(*a, f=f, **kw):
      x = f(*a, **kw)
      if RECORDING[0]:
        HANDED.append((x, deep(x)))
      return x

    setattr(gen, name, g)


RECORDING = [False]


# -------------------------------------------------------------- snapshots ----
def deep(x):
  """Everything a caller can see of an input."""
  if isinstance(x, xr.DataArray):
    return ('da', str(x.name), x.dims, arr(x.values), repr(sorted(
        (str(k), repr(v)) for k, v in x.attrs.items())), tuple(
            (str(c), v.dims, arr(v.values)) for c, v in sorted(
                x.coords.items(), key=lambda i: str(i[0]))))
  if isinstance(x, xr.Dataset):
    return ('ds', [(str(k), deep(v)) for k, v in x.items()], repr(x.attrs))
  if isinstance(x, dict):
    return ('dict', [(str(k), deep(v)) for k, v in x.items()])
  if isinstance(x, (list, tuple)):
    return (type(x).__name__, [deep(v) for v in x])
  if isinstance(x, np.ndarray):
    return arr(x)
  if isinstance(x, (str, int, float, bool, type(None), slice, np.generic)):
    return repr(x)
  return id(x)


def arr(v):
  v = np.asarray(v)
  if v.dtype == object:
    return (v.shape, 'O', repr(v.ravel().tolist()))
  return (v.shape, v.dtype.str, v.tobytes())


class Unchanged:

  def __init__(self, what, **inputs):
    self.what = what
    self.inputs = inputs

  def __enter__(self):
    self.before = {k: deep(v) for k, v in self.inputs.items()}

  def __exit__(self, t, e, tb):
    for k, v in self.inputs.items():
      if deep(v) != self.before[k]:
        raise core.Violation('input-modified', f'{self.what} modified its {k}: '
                             + where(self.before[k], deep(v)))
    return False


def where(a, b, path=''):
  if type(a) is not type(b) or not isinstance(a, (tuple, list)):
    return f'{path or "."} is {str(b)[:80]}, was {str(a)[:80]}'
  if len(a) != len(b):
    return f'{path} has {len(b)} parts, had {len(a)}'
  for i, (x, y) in enumerate(zip(a, b)):
    if x != y:
      name = x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i
      return where(x, y, f'{path}/{name}')
  return path


# ------------------------------------------------------------- generation ----
def make(rng, tier, index):
  family = rng.choice(['grid', 'grid', 'grid', 'grid', 'sparse', 'interp',
                       'state'])
  case = dict(family=family, seed=rng.randrange(2**31),
              menu=rng.choice(['mix', 'dense', 'every', 'step', 'step']))
  n = rng.choice([2, 2, 2, 2, 3])
  if family in ('grid', 'state'):
    while True:
      c = c01.gen_case(rng, tier)
      if not gen.clashing(c['metrics'], c['data']):
        break
    if family == 'grid' and rng.random() < .6:
      more = [m for m in gen.gen_metrics(rng, c['data'], 3)
              if not gen.clashing(c['metrics'] + [m], c['data'])
              and 'LevelSelect' not in (m, *c['metrics']) and m != 'SEEPS']
      c['metrics'] += [m for m in more if m not in c['metrics']]
      c['agg'] = gen.fit_agg(c['agg'], c['metrics'])
      if gen.loud_nan(c['data'], c['agg'], c['metrics']):
        c['agg']['bins'] = []
    small(rng, c, 2 if family == 'state' else 3)
    d = c['data']
    evals = []
    for j in range(n):
      k = rng.randint(1, len(c['metrics']))
      ii = sorted(rng.sample(range(d['n_init']), rng.randint(1, d['n_init'])))
      ll = sorted(rng.sample(range(d['n_lead']), rng.randint(1, d['n_lead'])))
      red = [r for r in c['agg']['reduce']]
      drop = rng.choice(red)
      evals.append(dict(
          variant=rng.choice(['same', 'same', 'other', 'flip', 'move', 'later'])
          if j else 'same',
          metrics=(list(c['metrics']) if rng.random() < .5 else
                   rng.sample(c['metrics'], k)),
          agg=rng.choice(['shared', 'shared', 'own']),
          drop=drop if not c['agg']['bins'] and len(red) > 1 else None,
          how=rng.choice(['chunk', 'load', 'load', 'loop', 'stats']),
          i=ii, l=ll, cut=rng.choice([0, 0, 0, 5, 40, 120, 300, 700]),
          exc=rng.randrange(3)))
    c['attrs'] = rng.choice([0, 1])
    if rng.random() < .5:  # the same evaluation of different data
      for e in evals[1:]:
        e.update(metrics=evals[0]['metrics'], agg='shared', how=evals[0]['how'],
                 i=evals[0]['i'], l=evals[0]['l'], cut=rng.choice([0, 0, 100]))
        if e['variant'] == 'same':
          e['variant'] = rng.choice(['other', 'flip', 'move', 'later'])
    case.update(base=c, evals=evals)
  elif family == 'sparse':
    c = c04.make(rng, tier, index)
    while c['family'] != 'sparse':
      c = c04.make(rng, tier, index)
    c['bins'] = c['bins'][:2]
    c['data']['n_init'] = min(c['data']['n_init'], 2)
    case.update(base=c, evals=[dict(
        seed=c['data']['seed'] + (0 if rng.random() < .4 else j),
        cut=rng.choice([0, 0, 0, 5, 40, 120, 300]), exc=rng.randrange(3))
                               for j in range(n)])
  else:
    case.update(base=c12.make_interp(rng), evals=[dict(
        seed=rng.randrange(10**6), n=rng.choice([0, 1, 2, 3]),
        cut=rng.choice([0, 0, 0, 5, 20, 60]), exc=rng.randrange(3))
                                       for j in range(n)])
  return case


def small(rng, c, k):
  d = c['data']
  c['metrics'] = c['metrics'][:k]
  if not set(c['metrics']) & gen.NEED_UV:
    d['vars'] = rng.sample(d['vars'], rng.choice([1, 1, 2]))
    for x in d['nan']:
      x['var'] = rng.choice(d['vars'])
  d['n_init'] = min(d['n_init'], 3)
  d['n_lead'] = min(d['n_lead'], 2)


# ----------------------------------------------------------- shared objects --
def variant(base, kind):
  """Data of the same shape with other contents or other coordinates."""
  d = copy.deepcopy(base['data'])
  if kind == 'other':
    d['seed'] += 1
  elif kind == 'flip':
    d['seed'] += 2
    d['lat'] = d['lat'][::-1]
  elif kind == 'move':
    d['seed'] += 3
    d['lat'] = [x * .5 for x in d['lat']]
    d['lon'] = [x + 5 for x in d['lon']]
  elif kind == 'later':
    d['seed'] += 4
    d['lead_start'] += 6
  return dict(base, data=d)


class Grid:

  def __init__(self, case):
    base = case['base']
    d, a = base['data'], base['agg']
    from weatherbenchX import aggregation
    from weatherbenchX import weighting
    RECORDING[0] = True
    try:
      self.metrics = gen.make_metrics(base['metrics'], d)
      self.bins = [gen.make_bin(b, d) for b in a['bins']]
    finally:
      RECORDING[0] = False
    self.weights = [weighting.GridAreaWeighting(return_normalized=(x == 'area'))
                    for x in a['weights']]
    self.reduce = list(a['reduce'])
    self.agg = aggregation.Aggregator(
        reduce_dims=self.reduce, bin_by=self.bins or None,
        weigh_by=self.weights or None, masked=a['masked'], skipna=a['skipna'])
    self.sources, self.loaders = {}, {}
    for e in case['evals']:
      v = e['variant']
      if v not in self.loaders:
        spec = variant(base, v)
        p, t = gen.make_data(spec['data'])
        if base['attrs']:
          p.attrs['source'] = 'model'
          for x in p.values():
            x.attrs['units'] = 'K'
        self.sources[v] = p, t
        self.loaders[v] = er.loaders(spec, p, t, nan_mask=a['masked'])
    self.chunk = self.load('same', case['evals'][0])

  def load(self, v, e, one=None):
    base = variant(self.case_of(), v)
    init, lead = gen.times_of(base['data'])
    i = init[e['i']] if one is None else init[one[0]:one[0] + 1]
    l = lead[e['l']] if one is None else lead[one[1]:one[1] + 1]
    pl, tl = self.loaders[v]
    tc = tl.load_chunk(i, l)
    return pl.load_chunk(i, l, tc), tc

  case = None

  def case_of(self):
    return self.case['base']

  def handed(self):
    return dict(sources=list(self.sources.values()), chunk=list(self.chunk),
                reduce=self.reduce, bins=self.bins, weights=self.weights,
                metrics=self.metrics)

  def own_agg(self, e):
    from weatherbenchX import aggregation
    if e['agg'] == 'shared':
      return self.agg
    a = self.case_of()['agg']
    return aggregation.Aggregator(
        reduce_dims=[r for r in a['reduce'] if r != e['drop']],
        bin_by=self.bins or None, weigh_by=self.weights or None,
        masked=a['masked'], skipna=a['skipna'])

  def run(self, e):
    from weatherbenchX import aggregation
    from weatherbenchX.metrics import base as mb
    metrics = {m: self.metrics[m] for m in e['metrics']}
    agg = self.own_agg(e)
    if e['how'] == 'chunk' and e['variant'] == 'same':
      pc, tc = self.chunk
    elif e['how'] != 'loop':
      pc, tc = self.load(e['variant'], e)
    if e['how'] == 'loop':
      states = []
      for i in e['i'][:2]:
        for l in e['l'][:2]:
          pc, tc = self.load(e['variant'], e, (i, l))
          states.append(agg.aggregate_statistics(
              mb.compute_unique_statistics_for_all_metrics(metrics, pc, tc)))
      state = aggregation.AggregationState.sum(states)
      values = state.metric_values(metrics)
      return [see_items(values), c12.see_tree(state.sum_weighted_statistics),
              c12.see_tree(state.sum_weights)]
    if e['how'] == 'stats':
      stats = mb.compute_unique_statistics_for_all_metrics(metrics, pc, tc)
      return [see_items(pc), see_items(tc),
              [(k, see_items(v)) for k, v in stats.items()]]
    return see_items(aggregation.compute_metric_values_for_single_chunk(
        metrics, agg, pc, tc))

  def steps(self, w):
    """Each step by itself: what it is given is what it leaves."""
    from weatherbenchX import aggregation
    from weatherbenchX.metrics import base as mb
    e = self.case['evals'][0]
    base = self.case_of()
    pl, tl = self.loaders['same']
    init, lead = gen.times_of(base['data'])
    i, l = init[e['i']], lead[e['l']]
    with Unchanged('loading', sources=self.sources['same'], init=i, lead=l):
      tc = tl.load_chunk(i, l)
      with Unchanged('loading predictions', targets=tc):
        pc = pl.load_chunk(i, l, tc)
    with Unchanged('masking', p=dict(pc), t=dict(tc)):
      masked_steps(pc)
    kept = []
    for name, m in self.metrics.items():
      for s, stat in m.statistics.items():
        with Unchanged(f'statistic {name}/{s}', predictions=pc, targets=tc):
          out = stat.compute(pc, tc)
        kept.append((f'{name}/{s}', out, deep(dict(out.items()))))
    for what, out, before in kept:
      if deep(dict(out.items())) != before:
        raise core.Violation('input-modified', f'a later statistic modified the '
                             f'result of {what}')
    with Unchanged('all statistics', predictions=pc, targets=tc,
                   metrics=self.metrics):
      stats = mb.compute_unique_statistics_for_all_metrics(self.metrics, pc, tc)
    with Unchanged('aggregate_statistics', statistics=stats, predictions=pc,
                   targets=tc):
      state = self.agg.aggregate_statistics(stats)
    for k, by_var in list(stats.items())[:2]:
      with Unchanged('aggregate_stat_vars', statistic=by_var):
        self.agg.aggregate_stat_vars(by_var)
      for v, da in by_var.items():
        with Unchanged('aggregate_stat_var', statistic=da):
          self.agg.aggregate_stat_var(da)
        for b in self.bins:
          with Unchanged(type(b).__name__, statistic=da):
            b.create_bin_mask(da)
        for x in self.weights:
          with Unchanged('weights', statistic=da):
            x.weights(da)
    parts = dict(s=state.sum_weighted_statistics, w=state.sum_weights)
    with Unchanged('metric_values', **parts):
      state.metric_values(self.metrics)
    with Unchanged('sums', **parts):
      aggregation.AggregationState.sum([state, state,
                                        aggregation.AggregationState.zero()])
      state + state  # pylint: disable=pointless-statement
    with Unchanged('mean_statistics', **parts):
      means = state.mean_statistics()
    for name, m in self.metrics.items():
      by_name = {k: means[s.unique_name] for k, s in m.statistics.items()
                 if s.unique_name in means}
      with Unchanged(f'values of {name}', means=by_name):
        m.values_from_mean_statistics(by_name)
    with Unchanged('forms', **parts):
      state.to_data_tree()
      try:
        state.to_dataset()
      except Exception:  # pylint: disable=broad-except
        pass  # documented limits of the format
    dims = [x for x in ('lead_time', 'latitude', 'init_time', 'longitude') if all(
        x in da.dims for t in parts['s'].values() for da in t.values())]
    if dims:
      with Unchanged('sum_along_dims', **parts):
        state.sum_along_dims(dims[:1])
    w.count('probe.steps')


def masked_steps(data):
  from weatherbenchX.data_loaders import base as lb
  lb.add_nan_mask_to_data(dict(data))
  lb.add_nan_mask_to_data(dict(data), list(data)[0])


def see_items(x):
  return [(str(k), c12.see(v)) for k, v in x.items()]


class State(Grid):
  """Evaluations that start from the same aggregation states."""

  def __init__(self, case):
    super().__init__(case)
    from weatherbenchX.metrics import base as mb
    self.states = []
    for e in case['evals']:
      pc, tc = self.load('same', e)
      self.states.append(self.agg.aggregate_statistics(
          mb.compute_unique_statistics_for_all_metrics(self.metrics, pc, tc)))

  def handed(self):
    return dict(super().handed(), states=[
        (s.sum_weighted_statistics, s.sum_weights) for s in self.states])

  def run(self, e):
    from weatherbenchX import aggregation
    metrics = {m: self.metrics[m] for m in e['metrics']}
    how = e['how']
    kept = [j for j, x in enumerate(self.case['evals'])
            if (x['i'], x['l']) == (e['i'], e['l'])]
    if how == 'chunk':
      s = self.states[kept[0]]
    elif how == 'load':
      s = aggregation.AggregationState.sum([self.states[j] for j in kept] * 2)
    elif how == 'loop':
      s = aggregation.AggregationState.zero()
      for j in kept:
        s = s + self.states[j]
    else:
      s = aggregation.AggregationState.from_data_tree(
          self.states[kept[-1]].to_data_tree())
    return [see_items(s.metric_values(metrics)),
            c12.see_tree(s.sum_weighted_statistics), c12.see_tree(s.sum_weights)]


class Sparse:

  def __init__(self, case):
    self.case = case
    base = case['base']
    d = base['data']
    self.metrics = gen.make_metrics(base['metrics'], dict(
        d, lat=c04.LATS, lon=c04.LONS))
    self.agg = c04.make_agg(base)
    self.loaders = {}
    for e in case['evals']:
      if e['seed'] not in self.loaders:
        self.loaders[e['seed']] = c04.make_loaders(
            dict(base, data=dict(d, seed=e['seed'])))

  def handed(self):
    return dict(metrics=self.metrics)

  def run(self, e):
    from weatherbenchX import aggregation
    from weatherbenchX.metrics import base as mb
    base = dict(self.case['base'], data=dict(self.case['base']['data'],
                                             seed=e['seed']))
    pl, tl = self.loaders[e['seed']]
    states = []
    for init, lead in er.make_times(base):
      tc = tl.load_chunk(init, lead)
      pc = pl.load_chunk(init, lead, tc)
      stats = mb.compute_unique_statistics_for_all_metrics(self.metrics, pc, tc)
      with Unchanged('aggregation', statistics=stats, predictions=pc, targets=tc):
        states.append(self.agg.aggregate_statistics(stats))
    s = aggregation.AggregationState.sum(states)
    return [see_items(s.metric_values(self.metrics)),
            c12.see_tree(s.sum_weighted_statistics), c12.see_tree(s.sum_weights)]

  def steps(self, w):
    pass


class Interp:

  def __init__(self, case):
    self.case = case
    self.job = c12.Interp(dict(suffix=''), case['base'])

  def handed(self):
    return {}

  def run(self, e):
    job = c12.Interp.__new__(c12.Interp)
    job.__dict__.update(self.job.__dict__)
    return job.run(dict(self.case['base'], seed=e['seed'], n=e['n']))

  def steps(self, w):
    """The interpolated data and the reference stay what they are."""
    inner = self.job.ip
    run = inner.interpolate

    class Watch:

      def interpolate(self, ds, reference=None):
        with Unchanged('interpolation', data=ds, reference=reference):
          return run(ds, reference)

    job = c12.Interp.__new__(c12.Interp)
    job.__dict__.update(self.job.__dict__, ip=Watch())
    for e in self.case['evals']:
      job.run(dict(self.case['base'], seed=e['seed'], n=e['n']))
    w.count('probe.steps')


CLASSES = dict(grid=Grid, state=State, sparse=Sparse, interp=Interp)


def build(case):
  cls = CLASSES[case['family']]
  o = cls.__new__(cls)
  o.case = case
  o.__init__(case)
  return o


# ---------------------------------------------------------------- execution --
class Stop(BaseException):
  """An evaluation that its user interrupts."""


def outcome(fn):
  try:
    return ('value', fn())
  except core.Violation:
    raise
  except Exception as e:  # pylint: disable=broad-except
    return ('error', type(e).__name__)


def injected(x):
  while x is not None:
    if getattr(x, 'injected', False):
      return True
    x = x.__cause__ or x.__context__
  return False


MENUS = dict(mix=(0, 1, 2, 3, 5, 8, 13, 25, 50, 120), dense=(0, 0, 1, 2),
             every=(0,), step=(0,))


def tracer(w, cut, make_exc, menu):
  inner = core.line_tracer(w, .6 if menu == 'mix' else 1, menu=MENUS[menu])

  def factory(task):
    g = inner(task)
    seen = [0 if cut else -1]

    visits = collections.Counter()

    def wrap(local):

      def f(frame, event, arg):
        line = frame.f_code, frame.f_lineno
        visits[line] += 1
        task.info = line, visits[line], visits
        if event == 'line' and seen[0] >= 0:
          seen[0] += 1
          if seen[0] >= cut:
            seen[0] = -1
            w.count('fault.interrupted_evaluation')
            raise make_exc()
        local(frame, event, arg)
        return f

      return f

    def glob(frame, event, arg):
      local = g(frame, event, arg)
      return None if local is None else wrap(local)

    task.glob = glob
    return glob

  return factory


def execute(case, ch, st):
  case = copy.deepcopy(case)
  with np.errstate(all='ignore'), core.World(ch) as w:
    del HANDED[:]
    # Each evaluation alone, with objects of its own.
    alone = []
    for e in case['evals']:
      few = case
      if case['family'] in ('grid', 'sparse'):
        few = dict(case, evals=[case['evals'][0], e])
      alone.append(outcome(lambda e=e: build(few).run(e)))
    # An unusable case is as unusable in company; nothing to decide then.
    if all(k == 'error' for k, _ in alone):
      w.count('probe.all_fail_alone')
    own = build(case)
    if alone[0][0] == 'value' or case['family'] != 'grid':
      own.steps(w)
    # Together, over shared objects.
    sh = build(case)
    if case['menu'] == 'step' and case['family'] == 'grid':
      for e in case['evals']:  # loaders that have been used before
        outcome(lambda e=e: sh.load(e['variant'], e))
    before = deep(sh.handed())

    def thread(e):
      def fn():
        t = w.in_task()
        if e['cut']:
          try:
            return sh.run(e)
          except BaseException as x:  # pylint: disable=broad-except
            if not injected(x):
              raise
          sys.settrace(t.glob)
        return sh.run(e)
      return lambda: outcome(fn)

    def exc(e):
      def f():
        x = [Stop, OSError, MemoryError][e['exc']]('injected')
        x.injected = True
        return x
      return f

    tasks = [w.spawn(f't{j}', thread(e), tracer=tracer(
        w, e['cut'], exc(e), case['menu']))
             for j, e in enumerate(case['evals'])]
    if case['menu'] == 'step':
      side_by_side(w, tasks)
    w.run_to_end()
    for j, (t, e, want) in enumerate(zip(tasks, case['evals'], alone)):
      if t.error is not None:
        raise t.error
      compare(t.result, want, f'evaluation {j} with {len(tasks) - 1} others')
    after = deep(sh.handed())
    if after != before:
      raise core.Violation('input-modified', 'shared objects changed: '
                           + where(before, after))
    # And the shared objects still serve each of them.
    for j, (e, want) in enumerate(zip(case['evals'], alone)):
      compare(outcome(lambda e=e: sh.run(e)), want,
              f'evaluation {j} after the others')
    for x, snap in HANDED:
      if deep(x) != snap:
        raise core.Violation('input-modified', 'an argument of a metric or '
                             'binning changed: ' + where(snap, deep(x)))
    w.count('probe.line_switches', w.counters.get('line_switches', 0))
    w.count('probe.evaluations', len(tasks))
    w.count('probe.arguments_checked', len(HANDED))
    w.count('family.' + case['family'])
    w.count('switching.' + case['menu'])
    for e in case['evals']:
      if case['family'] == 'grid':
        w.count('how.' + e['how'])
        w.count('variant.' + e['variant'])
    w.log(c12.digest([x for k, x in alone if k == 'value']))
  st.absorb(w)
  st.nontrivial = any(k == 'value' for k, _ in alone)


def side_by_side(w, tasks):
  """One evaluation waits at a line until another arrives there as well; then
  they go on together, line by line, for a while."""
  waiting, until, wait, together, turn = None, None, 0, 0, 0
  for _ in range(200000):
    r = w.runnable()
    if len(r) < 2:
      return
    free = [t for t in r if t is not waiting]
    turn += 1
    if together:
      together -= 1
      t = free[turn % len(free)]
    else:
      t = free[w.ch.pick(len(free)) if len(free) > 1 else 0]
    w.resume(t)
    if together or t.state != 'ready' or not t.info:
      continue
    at = t.info[:2]
    if waiting is not None:
      wait += 1
      if at == until:
        together = 60 + w.ch.pick(200)
        w.count('probe.met')
      if at == until or waiting.state != 'ready':
        waiting = None
      elif wait > 400:  # the other way round
        waiting, until, wait = t, at, 0
    elif all(not x.info or x.info[2][at[0]] < at[1] for x in r if x is not t
             ) and w.ch.flip(.3):
      waiting, until, wait = t, at, 0


def compare(got, want, what):
  if got[0] != want[0] or (got[0] == 'error' and got[1] != want[1]):
    raise core.Violation('disturbed', f'{what}: {brief(got)}, alone {brief(want)}')
  if got[0] == 'value':
    d = c12.first_difference(got[1], want[1])
    if d:
      raise core.Violation('disturbed', f'{what}: {d}')


def brief(x):
  return f'{x[0]} {x[1] if x[0] == "error" else ""}'.strip()


def shrink(case):
  for i in range(len(case['evals'])):
    if len(case['evals']) > 1:
      c = copy.deepcopy(case)
      del c['evals'][i]
      if case['family'] not in ('grid', 'state') or c['evals'][0][
          'variant'] == 'same':
        yield c
  for i, e in enumerate(case['evals']):
    for k, v in (('cut', 0), ('variant', 'same'), ('how', 'load'),
                 ('agg', 'shared')):
      if k in e and e[k] != v:
        c = copy.deepcopy(case)
        c['evals'][i][k] = v
        yield c
    for m in e.get('metrics', []):
      if len(e['metrics']) > 1:
        c = copy.deepcopy(case)
        c['evals'][i]['metrics'] = [m]
        yield c
  if case['family'] in ('grid', 'state'):
    for key in ('bins', 'weights'):
      for i in range(len(case['base']['agg'][key])):
        c = copy.deepcopy(case)
        del c['base']['agg'][key][i]
        yield c
