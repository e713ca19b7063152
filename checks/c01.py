"""C01: chunking and scheduling never change results."""
import numpy as np

from vsim import beamsim
from vsim import core
from vsim import evalrun as er
from vsim import fsim
from vsim import gen


def setup():
  er.setup()


def gen_case(rng, tier):
  style = rng.randrange(10)
  ens = style in (3, 4, 5)
  d = gen.gen_data(rng, ens=ens, level=style in (6, 7),
                   max_init=5 if tier == 'quick' else 9, max_lead=3 if tier == 'quick' else 5)
  if style in (0, 1, 2, 6):  # base statistics, decided by the plain reference
    metrics = rng.sample(sorted(['Error', 'AbsoluteError', 'SquaredError', 'RMSE',
                                 'PredictionPassthrough', 'TargetPassthrough']),
                         rng.randint(1, 2))
    metrics += [m for m in gen.gen_metrics(rng, d, 1) if m not in metrics]
    if 'LevelSelect' in metrics:
      metrics = ['LevelSelect']
  else:
    metrics = gen.gen_metrics(rng, d)
  agg = gen.fit_agg(gen.gen_agg(rng, d), metrics)
  nan = rng.random()
  d['nan'] = []
  if nan < 0.35:
    for _ in range(rng.randint(1, 3)):
      side = 't' if nan < 0.2 or rng.random() < 0.5 else 'p'
      idx = {k: rng.randrange(8) for k in (
          'init_time', 'lead_time', 'valid_time', 'latitude', 'longitude')
             if rng.random() < 0.8}
      d['nan'].append({'in': side, 'var': rng.choice(d['vars']), 'idx': idx})
    if nan < 0.2:
      agg['masked'] = True
    elif nan < 0.3:
      agg['skipna'] = True
    if nan < 0.1:
      agg['skipna'] = True
  if 'SEEPS' in metrics:
    agg['masked'] = True
  if gen.loud_nan(d, agg, metrics):
    agg['bins'] = []
  return dict(data=d, metrics=metrics, agg=agg, chunks=er.gen_chunks(rng, d),
              plan=er.gen_plan(rng), mode=rng.choice(['beam', 'beam', 'loop']))


def make(rng, tier, index):
  while True:
    case = gen_case(rng, tier)
    if er.n_chunks(case) <= (12 if tier == 'quick' else 30):
      if rng.random() < .15:
        case['data']['shuffle'] = rng.randrange(1, 1000)
      return case


def check_times(times, d):
  """The chunk list is the product of contiguous pieces, each pair once."""
  init, lead = gen.times_of(d)
  listed = list(times)
  offs = list(times.iter_with_chunk_offsets())
  if not (len(listed) == len(offs) == len(times)):
    raise core.Violation('chunk-list', f'lengths differ {len(listed)} '
                         f'{len(offs)} {len(times)}')
  seen = np.zeros((len(init), len(lead)), int)
  for i, (a, (o, b)) in enumerate(zip(listed, offs)):
    c = times[i]
    for x in (b, c):
      if not (np.array_equal(a[0], x[0]) and np.array_equal(a[1], x[1])):
        raise core.Violation('chunk-list', f'chunk {i} differs between accessors')
    ii = [int(np.where(init == x)[0][0]) for x in a[0]]
    ll = [int(np.where(lead == x)[0][0]) for x in a[1]]
    if ii[0] != o.init_time or ll[0] != o.lead_time:
      raise core.Violation('chunk-offset', f'chunk {i} starts at {ii[0]},{ll[0]} '
                           f'but its offset is {o}')
    seen[np.ix_(ii, ll)] += 1
  if (seen != 1).any():
    raise core.Violation('chunk-cover', f'time pairs covered {seen.tolist()}')


def check_requests(w, d, tags=('P', 'T')):
  init, lead = gen.times_of(d)
  for tag in tags:
    seen = np.zeros((len(init), len(lead)), int)
    for t, it, lt, _ in w.notes:
      if t == tag:
        ii = [int(np.where(init == x)[0][0]) for x in it]
        ll = [int(np.where(lead == x)[0][0]) for x in lt]
        seen[np.ix_(ii, ll)] += 1
    if (seen != 1).any():
      raise core.Violation('load-cover',
                           f'loader {tag} asked for pairs {seen.tolist()}')


def expected(case):
  d = case['data']
  nan_mask = case['agg']['masked']
  metrics, agg = gen.make_metrics(case['metrics'], d), gen.make_agg(case['agg'], d)
  with np.errstate(all='ignore'):
    state = er.whole_state(case, metrics, agg, nan_mask)
    values = state.metric_values(metrics)
    eps = 1e-5 if gen.tol(case['metrics'], d)['rtol'] > 1e-6 else 1e-11
    stable = er.stable_mask(values, state, metrics, eps)
  return state, values, stable


def compare(case, state_got, values_got, exp):
  from weatherbenchX import aggregation
  d = case['data']
  state, values, stable = exp
  tol = gen.tol(case['metrics'], d)
  for part in ('sum_weights', 'sum_weighted_statistics'):
    if state_got is None:
      break
    r = er.tree_diff(er.nonempty(getattr(state_got, part)),
                     er.nonempty(getattr(state, part)), path=part, **tol)
    if r:
      raise core.Violation('state-differs', r)
  r = er.compare_results(values_got, values, stable, **tol)
  if r:
    raise core.Violation('metric-differs', r)
  mask = None
  if case['agg']['masked']:
    mask = lambda p, t, unit: t == t
  with np.errstate(all='ignore'):
    er.check_reference(values_got, case, mask, **tol)


def execute(case, ch, st):
  from weatherbenchX import aggregation
  from weatherbenchX.metrics import base as mb
  d = case['data']
  np.seterr(all='ignore')
  check_times(er.make_times(case), d)
  exp = expected(case)
  if not len(exp[1]):
    st.count('probe.no_metric_defined')
  nan_mask = case['agg']['masked']
  n = er.n_chunks(case)
  with core.World(ch) as w:
    store = fsim.Storage(w)
    fsim.set_storage(store)
    if case['mode'] == 'beam' and len(exp[1]):
      er.run_job(w, case, beamsim.Plan(**case['plan']), nan_mask=nan_mask)
      check_requests(w, d)
      values = er.load_nc(store.content('/out/metrics.nc'))
      state = None
      if gen.clashing(case['metrics'], d):
        w.count('state_not_storable')
      else:
        state = aggregation.AggregationState.from_dataset(
            er.load_nc(store.content('/out/state.nc')))
    else:
      metrics = gen.make_metrics(case['metrics'], d)
      agg = gen.make_agg(case['agg'], d)
      pl, tl = er.loaders(case, nan_mask=nan_mask)
      states = []
      for it, lt in ch.shuffled(list(er.make_times(case))):
        tc = tl.load_chunk(it, lt)
        pc = pl.load_chunk(it, lt, tc)
        states.append(agg.aggregate_statistics(
            mb.compute_unique_statistics_for_all_metrics(metrics, pc, tc)))
        w.log(f'chunk {it} {lt}')
      rounds = 0
      while len(states) > 1 or not rounds:
        k = len(states) - ch.pick(len(states) - (len(states) > 1))
        part = [states.pop(ch.pick(len(states))) for _ in range(k)]
        if ch.flip(0.3):
          part.insert(ch.pick(len(part) + 1), aggregation.AggregationState.zero())
        if len(part) == 2 and ch.flip(0.5):
          states.append(part[0] + part[1])
        else:
          states.append(aggregation.AggregationState.sum(part))
        rounds += 1
        w.log(f'sum {k}')
      state = states[0]
      values = state.metric_values(metrics)
      w.count('probe.direct_summation')
    compare(case, state, values, exp)
    if n > 1:
      w.count('probe.several_chunks')
    ci, cl = case['chunks']
    if (ci and d['n_init'] % ci) or (cl and d['n_lead'] % cl):
      w.count('probe.ragged_last_chunk')
    if case['agg']['bins']:
      w.count('probe.binned')
    if case['agg']['weights']:
      w.count('probe.weighted')
    if case['agg']['masked']:
      w.count('probe.masked')
    for m in case['metrics']:
      w.count('metric.' + m)
  st.absorb(w)
  st.nontrivial = n > 1
  st.result(repr(sorted(map(str, values))))


def shrink(case):
  yield from er.shrink_eval(case)
  for c in ([1, 1], [None, None], [1, None], [None, 1]):
    if case['chunks'] != c:
      yield dict(case, chunks=c)

