"""A Beam runner under simulator control.

Executes the real DoFns (through Beam's own DoFnRunner), the real CombineFns
and the real coders; what is simulated is everything a distributed runner
decides: fusion, serialisation boundaries, bundling, element order, combiner
lifting and merge trees, worker placement, crashes, retries, speculative
duplicates and zombies.
"""
import pickle

import apache_beam as beam
from apache_beam import coders
from apache_beam import pvalue
from apache_beam.internal import pickler
from apache_beam.metrics.execution import MetricsContainer
from apache_beam.runners import common
from apache_beam.runners import runner as beam_runner
from apache_beam.runners.worker import statesampler
from apache_beam.transforms import core as bcore
from apache_beam.transforms import sideinputs
from apache_beam.transforms import util as butil
from apache_beam.transforms import window as bwindow
from apache_beam.typehints import typehints
from apache_beam.utils import counters as bcounters

from vsim import core

ANY = coders.registry.get_coder(typehints.Any)


class JobFailed(Exception):
  """The job reported failure to its submitter."""


class InjectedFailure(RuntimeError):
  """A worker-side failure injected by the simulator."""


def _coder_for(pc):
  try:
    return coders.registry.get_coder(pc.element_type or typehints.Any)
  except Exception:  # pylint: disable=broad-except
    return ANY


def _kv_coders(pc):
  t = pc.element_type
  try:
    k, v = t.tuple_types
    kc, vc = coders.registry.get_coder(k), coders.registry.get_coder(v)
  except Exception:  # pylint: disable=broad-except
    kc, vc = ANY, ANY
  return kc.as_deterministic_coder('sim GroupByKey'), vc


class Node:

  def __init__(self, idx, kind, applied):
    self.idx = idx
    self.kind = kind  # source, pardo, gbk, combine, flatten, reshuffle
    self.applied = applied
    self.name = applied.full_label
    self.inputs = []
    self.outputs = {}
    self.side = []


class Stage:
  """Root node plus the ParDos fused below it."""

  def __init__(self, root):
    self.root = root
    self.pending = []  # encoded elements (bytes or live objects) to process
    self.running = 0
    self.upstream = []  # stages that feed this one
    self.done = False
    self.grouped = None
    self.blobs = {}


class Bundle:

  def __init__(self, stage, elements, bid):
    self.stage = stage
    self.elements = elements
    self.bid = bid
    self.attempts = 0
    self.failures = 0
    self.committed = False
    self.live = []


class Host:

  def __init__(self, name):
    self.name = name
    self.cache = {}
    self.setup_calls = 0
    self.uuid_node = None


class _Receiver(common.Receiver):

  def __init__(self, fn):
    self.fn = fn

  def receive(self, wv):
    self.fn(wv.value)

  def receive_batch(self, b):
    raise core.HarnessError('batched elements not supported')

  def flush(self):
    pass


class Plan:
  """What the runner may do in this run."""

  def __init__(self, **kw):
    self.max_bundle = 4
    self.hosts = 3
    self.slots = 2
    self.max_attempts = 4
    self.p_fuse = 0.6
    self.p_lift = 0.7
    self.p_crash = 0.0
    self.p_elem_fail = 0.0
    self.p_dup = 0.0
    self.p_zombie = 0.0  # duplicate left running after the job has finished
    self.max_faults = 12
    self.order = True  # shuffle elements
    self.yield_outputs = True
    self.reprocess = 0.0  # an element is processed twice; outputs must agree
    self.plain = False  # reference execution: fixed order, no variation
    self.__dict__.update(kw)


class SimRunner(beam_runner.PipelineRunner):

  def __init__(self, w, plan, on_step=None):
    self.w = w
    self.ch = w.ch
    self.plan = plan
    self.zombies = []
    self.failed = None
    self.task_hosts = []
    self.on_step = on_step
    self.faults = 0
    self.n_bundles = 0
    self.metric_updates = 0
    self.fingerprint = fingerprint

  def is_fnapi_compatible(self):
    return True

  # ---------------------------------------------------------------- planning --
  def _collect(self, pipeline):
    nodes = []
    prod = {}

    def walk(applied):
      t = applied.transform
      kind = None
      if t is None:
        pass
      elif isinstance(t, bcore.Create):
        kind = 'source'
      elif isinstance(t, bcore.Impulse):
        kind = 'source'
      elif isinstance(t, butil.Reshuffle):
        kind = 'reshuffle'
      elif isinstance(t, bcore.GroupByKey):
        kind = 'gbk'
      elif isinstance(t, bcore.CombinePerKey) and not getattr(
          t, 'side_inputs', ()):
        kind = 'combine'
      elif isinstance(t, bcore.Flatten):
        kind = 'flatten'
      elif isinstance(t, bcore.ParDo):
        kind = 'pardo'
      if kind is not None:
        n = Node(len(nodes), kind, applied)
        n.inputs = [p for p in applied.main_inputs.values()] if kind != 'source' else []
        n.outputs = dict(applied.outputs)
        n.side = list(getattr(applied, 'side_inputs', ()) or ())
        nodes.append(n)
        for tag, pc in applied.outputs.items():
          prod[pc] = (n, tag)
        return
      if applied.parts:
        for p in applied.parts:
          walk(p)
        return
      if t is not None:
        outs = set(applied.outputs.values())
        ins = set(applied.main_inputs.values())
        if outs <= ins:
          return
        raise core.HarnessError(
            f'unsupported Beam primitive {type(t).__name__} in {applied.full_label}')

    walk(pipeline._current_transform() if not pipeline.transforms_stack
         else pipeline.transforms_stack[0])
    return nodes, prod

  def run_pipeline(self, pipeline, options):
    try:
      self._run(pipeline)
    except core.Violation:
      raise
    return _Result(self)

  # ------------------------------------------------------------------ running --
  def _run(self, pipeline):
    plan, ch, w = self.plan, self.ch, self.w
    nodes, prod = self._collect(pipeline)
    consumers = {}
    for n in nodes:
      for pc in n.inputs:
        consumers.setdefault(pc, []).append(n)
    # Fusion decisions.
    fused = {}
    lifted = {}
    for n in nodes:
      if n.kind == 'pardo':
        src = prod[n.inputs[0]][0]
        can = src.kind in ('pardo', 'source', 'reshuffle', 'gbk', 'combine')
        fused[n] = bool(can and not n.side and
                        (True if plan.plain else ch.flip(plan.p_fuse)))
      if n.kind == 'combine':
        lifted[n] = False if plan.plain else ch.flip(plan.p_lift)
        # A lifted pre-combine may be fused into its producer.
        src = prod[n.inputs[0]][0]
        fused[n] = bool(lifted[n] and src.kind == 'pardo' and
                        ch.flip(0.7))
    self._consumers, self._fused, self._lifted = consumers, fused, lifted
    # Stages.
    self.side_data = {}
    stages = {}
    for n in nodes:
      if n.kind == 'combine':
        if lifted[n] and not fused[n]:
          stages[(n, 'pre')] = Stage((n, 'pre'))
        stages[(n, 'post')] = Stage((n, 'post'))
      elif n.kind == 'pardo' and fused[n]:
        continue
      else:
        stages[(n, 'main')] = Stage((n, 'main'))
    self.stages = stages

    def stage_of(n):
      """The stage in which node n's outputs are produced."""
      if n.kind == 'combine':
        return stages[(n, 'post')]
      if n.kind == 'pardo' and fused[n]:
        return stage_of(prod[n.inputs[0]][0])
      return stages[(n, 'main')]

    side_pcs = {}
    for n in nodes:
      for si in n.side:
        side_pcs.setdefault(si.pvalue, []).append(n)
    self._side_pcs = side_pcs
    for (n, part), st in stages.items():
      ups = []
      if n.kind == 'combine' and part == 'post' and lifted[n] and not fused[n]:
        ups.append(stages[(n, 'pre')])
      else:
        for pc in n.inputs:
          ups.append(stage_of(prod[pc][0]))
      for si in n.side:
        ups.append(stage_of(prod[si.pvalue][0]))
      st.upstream = ups
    # Serialised user code, as shipped to workers.
    self.blobs = {}
    for n in nodes:
      if n.kind == 'pardo':
        self.blobs[n] = pickler.dumps(n.applied.transform.fn)
      elif n.kind == 'combine':
        self.blobs[n] = pickler.dumps(n.applied.transform.fn)
    self.hosts = [Host(f'host{i}') for i in range(plan.hosts)]
    self._host_seq = plan.hosts
    # Seed sources.
    for (n, part), st in stages.items():
      if n.kind == 'source':
        t = n.applied.transform
        if isinstance(t, bcore.Create):
          c = t._coder
          st.pending = [(c, c.encode(v)) for v in t.values]
        else:
          st.pending = [(ANY, ANY.encode(b''))]
    order = list(stages.values())
    self.n_stages = len(order)
    for i, s in enumerate(order):
      s.index = i
    self.bundles = []
    active = []  # (task, bundle, host)
    steps = 0
    while True:
      steps += 1
      if steps > 400000:
        raise core.Violation('no-progress', 'job exceeds the step bound')
      self._settle(order)
      if self.failed is None and all(s.done for s in order):
        break
      if self.failed is not None:
        break
      # Enabled actions.
      ready_stages = [s for s in order if s.pending and self._inputs_ready(s)]
      can_start = len([1 for t, b, h in active if t.state != 'done'
                       and not b.committed]) < plan.hosts * plan.slots
      runnable = [t for t in w.runnable()]
      acts = []
      if ready_stages and (can_start or not runnable):
        acts.append('start')
      if runnable:
        acts.append('run')
      if not acts:
        raise core.Violation('deadlock', 'job cannot make progress')
      # More weight on running than on starting.
      if len(acts) == 2:
        act = acts[1] if plan.plain or ch.pick(3) else acts[0]
        if plan.plain:
          act = 'run'
      else:
        act = acts[0]
      if act == 'start':
        st = ready_stages[0 if plan.plain else ch.pick(len(ready_stages))]
        b = self._form_bundle(st)
        active.append(self._attempt(b))
      else:
        awake = [t for t in runnable if t.info.get('stall', 1)]
        runnable = awake or runnable
        t = runnable[0 if plan.plain else ch.pick(len(runnable))]
        if t.info.get('stall'):
          t.info['stall'] -= 1
        w.clock.advance(0.001 * (1 + (0 if plan.plain else ch.pick(50))))
        w.resume(t)
      # Finished attempts.
      for entry in list(active):
        t, b, h = entry
        if t.state == 'done':
          active.remove(entry)
          self._finished(t, b, h, active)
          if self.failed is not None:
            break
      if self.failed is not None:
        break
      # Faults.
      if not plan.plain and self.faults < plan.max_faults:
        live = [e for e in active if not e[1].committed and e[0].state == 'ready']
        if live and plan.p_crash and ch.flip(plan.p_crash):
          _, _, h = live[ch.pick(len(live))]
          self._crash_host(h, active)
        elif live and plan.p_dup and ch.flip(
            plan.p_zombie if len(active) == 1 and not ready_stages and
            len(self.bundles) > 3 else plan.p_dup):
          _, b, h = live[ch.pick(len(live))]
          if len(b.live) < 3:
            self.faults += 1
            w.count('fault.speculative_duplicate')
            w.log(f'DUP bundle {b.bid}')
            active.append(self._attempt(b))
            if ch.pick(2):  # one of the two workers stalls for long
                k = ch.pick(2)
                t = (live[0] if k else active[-1])[0]
                t.info['stall'] = ch.pick(20)
                w.count('fault.stalled_worker')
    # Job finished (or failed): what is still running becomes a zombie.
    self.zombies = [e for e in active if e[0].state != 'done']
    if self.zombies:
      w.count('fault.zombie_left', len(self.zombies))
    if self.failed is not None:
      w.log('JOB FAILED')
      raise JobFailed(repr(self.failed)) from self.failed
    w.log('JOB DONE')
    for h in self.hosts:
      for insts in h.cache.values():
        for ops in insts:
          ops.teardown()

  def drain_zombies(self):
    """Lets attempts that outlived the job run on, with crashes possible."""
    for _ in range(100000):
      r = [t for t in self.w.runnable()]
      if not r:
        return
      if self.ch.flip(0.05):
        self.w.crash([r[self.ch.pick(len(r))]])
        self.w.count('fault.zombie_crash')
      r = self.w.runnable()
      self.w.resume(r[self.ch.pick(len(r))])

  def _inputs_ready(self, s):
    n, part = s.root
    if n.kind == 'gbk' or (n.kind == 'combine' and part == 'post'):
      return s.grouped is not None
    return not n.side or all(u.done for u in s.upstream)

  def _settle(self, order):
    """Marks stages complete; performs grouping once upstream is complete."""
    changed = True
    while changed:
      changed = False
      for s in order:
        if s.done:
          continue
        n, part = s.root
        ups_done = all(u.done for u in s.upstream)
        grouping = n.kind == 'gbk' or (n.kind == 'combine' and part == 'post')
        if grouping and ups_done and s.grouped is None:
          s.grouped = True
          self._group(s)
          changed = True
        if n.side and not all(u.done for u in s.upstream):
          continue
        if (ups_done and not s.pending and s.running == 0
            and (not grouping or s.grouped)):
          s.done = True
          changed = True

  def _group(self, s):
    """Groups pending (key bytes, value bytes) pairs by key."""
    groups = {}
    kc, vc = _kv_coders(s.root[0].inputs[0])
    for coder, blob in s.pending:
      kb, vb = blob
      groups.setdefault(kb, []).append(vb)
    keys = list(groups)
    s.pending = [('group', (kb, groups[kb])) for kb in keys]

  def _form_bundle(self, st):
    plan, ch = self.plan, self.ch
    if plan.plain:
      k = len(st.pending)
      take, st.pending = st.pending, []
    else:
      k = 1 + ch.pick(min(plan.max_bundle, len(st.pending)))
      take = []
      for _ in range(k):
        i = ch.pick(len(st.pending)) if plan.order else 0
        take.append(st.pending.pop(i))
    b = Bundle(st, take, len(self.bundles))
    self.bundles.append(b)
    st.running += 1
    self.n_bundles += 1
    return b

  def _attempt(self, b):
    plan, ch, w = self.plan, self.ch, self.w
    h = self.hosts[0 if plan.plain else ch.pick(len(self.hosts))]
    b.attempts += 1
    name = f'{h.name}/b{b.bid}.{b.attempts}'
    n, part = b.stage.root
    w.log(f'START {name} {n.name}:{part} x{len(b.elements)}')
    t = w.spawn(name, lambda: self._execute(b, h), host=h)
    b.live.append(t)
    return (t, b, h)

  def _crash_host(self, h, active):
    w = self.w
    self.faults += 1
    w.count('fault.worker_crash')
    victims = [e for e in active if e[2] is h and e[0].state == 'ready']
    w.log(f'CRASH {h.name}')
    w.crash([e[0] for e in victims])
    for e in victims:
      active.remove(e)
      t, b, _ = e
      b.live.remove(t)
      # Unwind the dead thread; all of its effects are void.
      hook, w.on_event = w.on_event, None
      w.resume(t)
      w.on_event = hook
    h2 = Host(f'host{self._host_seq}')
    self._host_seq += 1
    self.hosts[self.hosts.index(h)] = h2
    for e in victims:
      b = e[1]
      if not b.committed and not b.live:
        self._retry_or_fail(b, active, core.SimCrash('worker lost'))

  def _retry_or_fail(self, b, active, err):
    # Injected worker losses are bounded by the fault budget and do not use up
    # the attempts; failures raised by code on the worker do.
    if not isinstance(err, (core.SimCrash, InjectedFailure)):
      b.failures += 1
    if b.failures >= self.plan.max_attempts:
      self.failed = err
      return
    self.w.count('bundle_retries')
    active.append(self._attempt(b))

  def _finished(self, t, b, h, active):
    w = self.w
    if t in b.live:
      b.live.remove(t)
    if t.error is not None:
      if isinstance(t.error, (core.HarnessError, core.Violation)):
        raise t.error
      w.log(f'FAIL {t.name} {type(t.error).__name__}')
      if b.committed:
        return
      if isinstance(t.error, InjectedFailure):
        w.count('fault.bundle_failure')
      if not b.live:
        self._retry_or_fail(b, active, t.error)
      else:
        if not isinstance(t.error, InjectedFailure):
          b.failures += 1
        if b.failures >= self.plan.max_attempts:
          self.failed = t.error
      return
    if b.committed:
      w.log(f'DISCARD {t.name}')
      w.count('discarded_duplicate_outputs')
      return
    b.committed = True
    b.stage.running -= 1
    w.log(f'COMMIT {t.name}')
    outs = t.result
    for stage_key, items in outs:
      if stage_key[0] == 'side':
        self.side_data.setdefault(stage_key[1], []).extend(items)
      else:
        self.stages[stage_key].pending.extend(items)

  # ---------------------------------------------------------- bundle execution --
  def _execute(self, b, h):
    plan, ch, w = self.plan, self.ch, self.w
    key = id(b.stage)
    insts = h.cache.setdefault(key, [])
    if insts and (plan.plain or ch.pick(4)):
      ops = insts.pop()
    else:
      ops = _Ops(self, b.stage, h)
    tracker = statesampler.StateSampler(
        'sim', bcounters.CounterFactory(), sampling_period_ms=10**6)
    statesampler.set_current_tracker(tracker)
    container = MetricsContainer('sim')
    state = tracker.scoped_state('sim', 'process', metrics_container=container)
    out = []
    with state:
      ops.start(out)
      for el in b.elements:
        w.yield_point('element')
        if (not plan.plain and plan.p_elem_fail
            and self.faults < plan.max_faults and ch.flip(plan.p_elem_fail)):
          self.faults += 1
          raise InjectedFailure('injected bundle failure')
        ops.process(el)
      w.yield_point('finish')
      ops.finish()
      if (not plan.plain and plan.p_elem_fail and self.faults < plan.max_faults
          and ch.flip(plan.p_elem_fail)):
        self.faults += 1
        w.count('fault.fail_after_finish')
        raise InjectedFailure('injected failure after the bundle finished')
    insts.append(ops)
    w.yield_point('commit')
    return out


def fingerprint(x, depth=0):
  """Value-based identity of a pipeline element (not of its representation)."""
  import numpy as np
  import xarray as xr
  if depth > 12:
    return '...'
  if isinstance(x, xr.DataArray):
    return ('da', str(x.name), tuple(map(str, x.dims)), x.shape,
            str(x.dtype), np.asarray(x.values).tobytes(), tuple(
                (str(c), x.coords[c].dims, fingerprint(x.coords[c].values))
                for c in sorted(map(str, x.coords))))
  if isinstance(x, xr.Dataset):
    return ('ds', tuple((str(k), fingerprint(x[k], depth + 1)) for k in x.data_vars))
  if isinstance(x, np.ndarray):
    if x.dtype == object:
      return ('nd', x.shape, repr(x.tolist()))
    return ('nd', x.shape, str(x.dtype), x.tobytes())
  if isinstance(x, dict):
    return ('dict', tuple((str(k), fingerprint(v, depth + 1)) for k, v in x.items()))
  if isinstance(x, (list, tuple)):
    return (type(x).__name__, tuple(fingerprint(v, depth + 1) for v in x))
  if hasattr(x, '__dataclass_fields__'):
    return (type(x).__name__, tuple(
        (f, fingerprint(getattr(x, f), depth + 1)) for f in x.__dataclass_fields__))
  if isinstance(x, (str, bytes, int, float, bool, type(None), slice)):
    return repr(x)
  if hasattr(x, '__iter__') and not hasattr(x, '__len__'):
    return '<iterable>'
  return type(x).__name__


class _Ops:
  """Deserialised user code of one stage on one worker (a bundle processor)."""

  def __init__(self, r, stage, host):
    self.r = r
    self.stage = stage
    self.host = host
    self.out = None
    self.runners = []
    self.combines = []
    n, part = stage.root
    if n.kind == 'pardo':
      self.entry = self._pardo(n)
      self.decode = lambda el: el[0].decode(el[1])
    elif n.kind in ('source', 'reshuffle', 'flatten'):
      self.entry = self._fan_out(n)
      self.decode = lambda el: el[0].decode(el[1])
    elif n.kind == 'gbk':
      kc, vc = _kv_coders(n.inputs[0])
      fan = self._fan_out(n)
      self.entry = fan
      ch = r.ch

      def dec(el):
        kb, vbs = el[1]
        vs = [vc.decode(v) for v in vbs]
        if not r.plan.plain:
          vs = ch.shuffled(vs)
        return (kc.decode(kb), vs)

      self.decode = dec
    elif n.kind == 'combine' and part == 'pre':
      self.entry = self._precombine(n)
      self.decode = lambda el: el[0].decode(el[1])
    else:
      self.entry = self._postcombine(n)
      kc, vc = _kv_coders(n.inputs[0])
      self.decode = lambda el: (kc.decode(el[1][0]), el[1][1])

  def start(self, out):
    self.out = out
    for rn in self.runners:
      rn.start()
    for c in self.combines:
      c.acc = {}

  def process(self, el):
    self.entry(self.decode(el))

  def finish(self):
    for rn in self.runners:
      rn.finish()
    for c in self.combines:
      c.flush()

  def teardown(self):
    for rn in self.runners:
      rn.teardown()

  # Receivers -------------------------------------------------------------------
  def _fan_out(self, n, tag=None):
    """Callable delivering one element of n's output `tag` to all consumers."""
    pc = n.outputs.get(tag)
    if pc is None and len(n.outputs) == 1 and tag is None:
      pc = list(n.outputs.values())[0]
    targets = []
    if pc is not None:
      for c in self.r._consumers.get(pc, []):
        targets.append(self._target(pc, c))
      if pc in self.r._side_pcs:
        coder = _coder_for(pc)
        def side(v, pc=pc, coder=coder):
          self.out.append((('side', pc), [coder.encode(v)]))
        targets.append(side)
    if len(targets) > 1 and not self.r.plan.plain:
      targets = self.r.ch.shuffled(targets)

    def deliver(v):
      for t in targets:
        t(v)

    return deliver

  def _target(self, pc, c):
    r = self.r
    if c.kind == 'pardo' and r._fused[c]:
      return self._pardo(c)
    if c.kind == 'combine':
      kc, vc = _kv_coders(pc)
      if r._lifted[c]:
        if r._fused[c]:
          return self._precombine(c)
        coder = _coder_for(pc)
        return lambda v: self.out.append(
            ((c, 'pre'), [(coder, coder.encode(v))]))
      return lambda v: self.out.append(
          ((c, 'post'), [('kv', (kc.encode(v[0]), ('raw', vc.encode(v[1]))))]))
    if c.kind == 'gbk':
      kc, vc = _kv_coders(pc)
      return lambda v: self.out.append(
          ((c, 'main'), [('kv', (kc.encode(v[0]), vc.encode(v[1])))]))
    coder = _coder_for(pc)
    return lambda v: self.out.append(((c, 'main'), [(coder, coder.encode(v))]))

  def _pardo(self, n):
    r = self.r
    w = r.w
    fn = pickler.loads(r.blobs[n])
    t = n.applied.transform
    receivers = {}
    for tag in list(n.outputs) or [None]:
      deliver = self._fan_out(n, tag)

      def rec(v, deliver=deliver):
        if r.plan.yield_outputs:
          w.yield_point('output')
        deliver(v)

      receivers[tag] = _Receiver(rec)
    if None not in receivers:
      receivers[None] = list(receivers.values())[0]
    sides = []
    for si in n.side:
      coder = _coder_for(si.pvalue)
      vals = [bwindow.GlobalWindows.windowed_value(coder.decode(b))
              for b in r.side_data.get(si.pvalue, [])]
      sides.append(sideinputs.SideInputMap(type(si), si._view_options(), vals))
    runner = common.DoFnRunner(
        fn, list(t.args or []), dict(t.kwargs or {}), sides,
        n.applied.inputs[0].windowing if n.applied.inputs else bcore.Windowing(
            bwindow.GlobalWindows()),
        tagged_receivers=receivers, step_name=n.name)
    runner.setup()
    self.runners.append(runner)
    wrap = bwindow.GlobalWindows.windowed_value
    if r.plan.plain or not r.plan.reprocess or r.fingerprint is None:
      return lambda v: runner.process(wrap(v))

    def process(v):
      if not r.ch.flip(r.plan.reprocess):
        runner.process(wrap(v))
        return
      # The same input object twice on the same instance: only the second
      # attempt's outputs are kept, and both must be equal.
      real = {tag: rec.fn for tag, rec in receivers.items()}
      before = r.fingerprint(v)
      runs = []
      try:
        for _ in range(2):
          got = []
          for tag, rec in receivers.items():
            rec.fn = lambda x, tag=tag: got.append((tag, x))
          runner.process(wrap(v))
          runs.append(([(str(t), r.fingerprint(x)) for t, x in got], got))
          after = r.fingerprint(v)
          if after != before:
            raise core.Violation(
                'input-modified', f'step {n.name} changed its input element')
      finally:
        for tag, rec in receivers.items():
          rec.fn = real[tag]
      w.count('probe.reprocessed')
      if runs[0][0] != runs[1][0]:
        raise core.Violation(
            'not-repeatable', f'step {n.name} gave different output when the '
            'same input was processed again')
      for tag, x in runs[1][1]:
        real[tag](x)

    return process

  def _precombine(self, n):
    c = _PreCombine(self, n)
    self.combines.append(c)
    return c.add

  def _postcombine(self, n):
    r = self.r
    ch = r.ch
    fn = pickler.loads(r.blobs[n])
    fn = bcore.CombineFn.maybe_from_callable(fn)
    t = n.applied.transform
    args, kwargs = list(t.args or []), dict(t.kwargs or {})
    deliver = self._fan_out(n)
    kc, vc = _kv_coders(n.inputs[0])

    def run(kv):
      key, vals = kv
      if r.plan.plain:
        acc = fn.create_accumulator(*args, **kwargs)
        for tag, blob in vals:
          acc = fn.add_input(acc, vc.decode(blob), *args, **kwargs)
        deliver((key, fn.extract_output(acc, *args, **kwargs)))
        return
      accs = []
      for tag, blob in ch.shuffled(vals):
        if tag == 'acc':
          accs.append(pickle.loads(blob))
        else:
          # Unlifted values: build one or several accumulators.
          if accs and ch.pick(3):
            i = ch.pick(len(accs))
            accs[i] = fn.add_input(accs[i], vc.decode(blob), *args, **kwargs)
          else:
            a = fn.create_accumulator(*args, **kwargs)
            accs.append(fn.add_input(a, vc.decode(blob), *args, **kwargs))
      for _ in range(ch.pick(3) if ch.pick(2) else 0):
        accs.insert(ch.pick(len(accs) + 1),
                    fn.create_accumulator(*args, **kwargs))
        r.w.count('empty_accumulators')
      rounds = 0
      while len(accs) > 1 or rounds == 0:
        k = 1 + ch.pick(len(accs))
        part = [accs.pop(ch.pick(len(accs))) for _ in range(k)]
        m = fn.merge_accumulators(part, *args, **kwargs)
        if ch.pick(3) == 0:
          m = fn.compact(m, *args, **kwargs)
        if ch.pick(3) == 0:
          m = pickle.loads(pickle.dumps(m))
        accs.append(m)
        rounds += 1
        r.w.count('accumulator_merges')
        if rounds > 200:
          raise core.HarnessError('merge loop')
      deliver((key, fn.extract_output(accs[0], *args, **kwargs)))

    return run


class _PreCombine:
  """Lifted combiner: partial accumulators per key within a bundle."""

  def __init__(self, ops, n):
    self.ops = ops
    self.n = n
    t = n.applied.transform
    self.fn = bcore.CombineFn.maybe_from_callable(
        pickler.loads(ops.r.blobs[n]))
    self.args, self.kwargs = list(t.args or []), dict(t.kwargs or {})
    self.kc, _ = _kv_coders(n.inputs[0])
    self.acc = {}

  def add(self, kv):
    k, v = kv
    kb = self.kc.encode(k)
    acc = self.acc.get(kb, self)
    if acc is self:
      acc = self.fn.create_accumulator(*self.args, **self.kwargs)
    acc = self.fn.add_input(acc, v, *self.args, **self.kwargs)
    self.acc[kb] = acc
    if self.ops.r.ch.flip(0.15):
      self._emit(kb)

  def _emit(self, kb):
    acc = self.acc.pop(kb)
    self.ops.out.append(((self.n, 'post'),
                         [('kv', (kb, ('acc', pickle.dumps(acc))))]))

  def flush(self):
    for kb in list(self.acc):
      self._emit(kb)


class _Result(beam_runner.PipelineResult):

  def __init__(self, r):
    super().__init__(beam_runner.PipelineState.DONE)
    self.r = r

  def wait_until_finish(self, duration=None):
    return self.state


def _speedups():
  """Beam rebuilds its argument parsers on every option access; memoise the
  views (pure speed, no semantic effect)."""
  from apache_beam.options import pipeline_options as po
  orig = po.PipelineOptions.view_as

  def view_as(self, cls):
    d = self.__dict__.get('_sim_views')
    if d is None:
      d = {}
      object.__setattr__(self, '_sim_views', d)
    v = d.get(cls)
    if v is None:
      v = d[cls] = orig(self, cls)
      object.__setattr__(v, '_sim_views', d)
    return v

  po.PipelineOptions.view_as = view_as


_speedups()
