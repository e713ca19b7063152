"""C13: a saved aggregation state is a complete substitute for re-evaluating."""
import copy

import numpy as np

from vsim import beamsim
from vsim import core
from vsim import evalrun as er
from vsim import fsim
from vsim import gen
from checks import c01


def setup():
  er.setup()


def make(rng, tier, index):
  while True:
    case = c01.gen_case(rng, tier)
    d = case['data']
    if gen.clashing(case['metrics'], d):
      continue
    if d['n_init'] * d['n_lead'] < 2 and rng.random() < .9:
      continue
    if rng.random() < .5:
      case['chunks'] = [rng.choice([None, 2, 3, 0]), rng.choice([None, 2, 0])]
    if rng.random() < .1:
      d['shuffle'] = rng.randrange(1, 1000)
    if er.n_chunks(case) <= (8 if tier == 'quick' else 20):
      break
  case['jobs'] = []
  k = rng.choice([1, 2, 2, 3, 4])
  case['split'] = rng.choice(['init', 'init', 'init', 'lead', 'both'])
  case['owner_i'] = [rng.randrange(k) for _ in range(d['n_init'])]
  case['owner_l'] = [rng.randrange(k) for _ in range(d['n_lead'])]
  if rng.random() < .4:  # contiguous
    case['owner_i'].sort()
    case['owner_l'].sort()
  case['k'] = k
  p = er.gen_plan(rng)
  if rng.random() < .4:
    p.update(p_crash=.03, p_dup=.05, p_elem_fail=.03, max_faults=4)
  case['plan'] = p
  case['p_fs'] = rng.choice([0, 0, .2, .6])
  case['rerun'] = rng.choice([0, 0, 1])
  case['later'] = rng.choice([0, 0, 1])
  return case


def pieces(case):
  """Index sets (init, lead) of the jobs; they partition all time pairs."""
  d = case['data']
  k = case['k']
  oi, ol = case['owner_i'], case['owner_l']
  ii = [[i for i in range(d['n_init']) if oi[i] == j] for j in range(k)]
  ll = [[i for i in range(d['n_lead']) if ol[i] == j] for j in range(k)]
  if case['split'] == 'init':
    out = [(i, list(range(d['n_lead']))) for i in ii]
  elif case['split'] == 'lead':
    out = [(list(range(d['n_init'])), l) for l in ll]
  else:
    out = [(i, l) for i in ii for l in ll]
  return [x for x in out if x[0] and x[1]]


def run_job(w, ch, case, store, piece, j, agg, metrics):
  """Runs one job until it succeeds; returns the number of failed runs."""
  from weatherbenchX import time_chunks
  init, lead = gen.times_of(case['data'])
  ci, cl = case['chunks']
  times = time_chunks.TimeChunks(init[piece[0]], lead[piece[1]], ci, cl)
  failures = 0
  store.p_fault, store.max_faults = case['p_fs'], store.faulted_ops + 3
  while True:
    try:
      pl, tl = er.loaders(case, nan_mask=case['agg']['masked'])
      r = beamsim.SimRunner(w, beamsim.Plan(**dict(
          case['plan'], max_attempts=1 + ch.pick(3))))
      er.run_job(w, case, None, er.Recording(pl, 'P'), er.Recording(tl, 'T'),
                 metrics, agg, times, out=f'sim:///out/metrics-{j}.nc',
                 state=f'sim:///out/state-{j}.nc', runner=r)
      r.drain_zombies()
      return failures
    except beamsim.JobFailed:
      w.log('JOB RERUN')
      w.count('fault.job_failed')
      r.drain_zombies()
      failures += 1
      if failures > 6:
        raise core.HarnessError('jobs keep failing without faults')


def execute(case, ch, st):
  from weatherbenchX import aggregation
  np.seterr(all='ignore')
  case = copy.deepcopy(case)
  d = case['data']
  exp = c01.expected(case)
  if not len(exp[1]):
    return
  nan_mask = case['agg']['masked']
  tol = gen.tol(case['metrics'], d)
  # The job may keep time dimensions that are reduced after loading.
  job_case = copy.deepcopy(case)
  late = []
  if case['later']:
    late = [x for x in ('init_time', 'lead_time') if x in case['agg']['reduce']]
    if ch.flip(.5):
      late = late[:1]
    job_case['agg']['reduce'] = [
        x for x in case['agg']['reduce'] if x not in late]
    if nan_mask and not job_case['agg']['reduce']:
      # Nothing reduced: masks that differ between variables remain and cannot
      # be stored in one Dataset (documented in to_dataset).
      late = []
      job_case = copy.deepcopy(case)
  with core.World(ch) as w:
    store = fsim.Storage(w)
    fsim.set_storage(store)
    metrics = gen.make_metrics(case['metrics'], d)
    agg = gen.make_agg(job_case['agg'], d)
    todo = pieces(case)
    order = ch.shuffled(list(range(len(todo))))
    for j in order:
      run_job(w, ch, job_case, store, todo[j], j, agg, metrics)
      if case['rerun'] and ch.flip(.3):
        run_job(w, ch, job_case, store, todo[j], j, agg, metrics)
        w.count('probe.rerun_of_finished_job')
    store.p_fault = 0
    states = []
    for j in ch.shuffled(list(range(len(todo)))):
      s = aggregation.AggregationState.from_dataset(
          er.load_nc(content(store, f'/out/state-{j}.nc')))
      mine = er.load_nc(content(store, f'/out/metrics-{j}.nc'))
      again = er.normal_times(s.metric_values(metrics))
      r = er.compare_results(again, mine, job_stable(s, metrics, tol),
                             max(tol['rtol'] * 1e-2, 1e-10),
                             max(tol['atol'] * 1e-2, 1e-10))
      if r:
        raise core.Violation('state-is-not-the-job', f'job {j}: {r}')
      # Fewer metrics need fewer statistics.
      k = case['metrics'][ch.pick(len(case['metrics']))]
      one = er.normal_times(s.metric_values({k: metrics[k]}))
      part = mine[[v for v in mine if v.split('.')[0] == k]]
      r = er.compare_results(one, part, job_stable(s, metrics, tol),
                             max(tol['rtol'] * 1e-2, 1e-10),
                             max(tol['atol'] * 1e-2, 1e-10))
      if r:
        raise core.Violation('state-is-not-the-job', f'{k} of job {j}: {r}')
      states.append(s)
    reduced = False
    if late and ch.flip(.5):
      states = [s.sum_along_dims(late) for s in states]
      reduced = True
    total = merge(w, ch, states)
    if late and not reduced:
      total = total.sum_along_dims(late)
    if late:
      w.count('probe.reduced_after_loading')
    values = er.normal_times(total.metric_values(metrics))
    c01.compare(case, total, values, exp)
    if len(todo) > 1:
      w.count('probe.several_jobs')
    if 'init_time' not in case['agg']['reduce'] and len(todo) > 1:
      w.count('probe.jobs_with_kept_time')
    for m in case['metrics']:
      w.count('metric.' + m)
  st.absorb(w)
  st.nontrivial = True
  st.result(repr(sorted(map(str, values))))


def job_stable(state, metrics, tol):
  v = state.metric_values(metrics)
  return er.stable_mask(v, state, metrics, 1e-5 if tol['rtol'] > 1e-6 else 1e-11)


def merge(w, ch, states):
  """Adds up states in any grouping, saving and restoring in between."""
  from weatherbenchX import aggregation
  states = list(states)
  while len(states) > 1:
    k = 2 + ch.pick(len(states) - 1)
    part = [states.pop(ch.pick(len(states))) for _ in range(k)]
    how = ch.pick(3)
    if how == 0 and k == 2:
      s = part[0] + part[1]
    elif how == 1:
      s = sum(part, aggregation.AggregationState.zero())
    else:
      s = aggregation.AggregationState.sum(part)
    if ch.flip(.3):
      s = aggregation.AggregationState.from_dataset(
          er.load_nc(s.to_dataset().to_netcdf()))
      w.count('probe.saved_between_merges')
    states.append(s)
    w.log(f'MERGE {k}')
  return states[0]


def content(store, path):
  data = store.content(path)
  if data is None:
    raise core.Violation('no-output', f'the job succeeded without {path}')
  return data


def shrink(case):
  d = case['data']
  for c in er.shrink_eval(case):
    c['owner_i'] = c['owner_i'][:c['data']['n_init']]
    c['owner_l'] = c['owner_l'][:c['data']['n_lead']]
    yield c
  for c in ([1, 1], [None, None]):
    if case['chunks'] != c:
      yield dict(case, chunks=c)
  for k in ('p_fs', 'rerun', 'later'):
    if case[k]:
      yield dict(case, **{k: 0})
  if case['split'] != 'init':
    yield dict(case, split='init')
  if case['k'] > 2:
    yield dict(case, k=2, owner_i=[min(x, 1) for x in case['owner_i']],
               owner_l=[min(x, 1) for x in case['owner_l']])
