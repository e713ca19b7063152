"""Seeded choices, the baton scheduler and the simulated clock.

One run = one `World`: a `Chooser` (every decision of schedule and fault is one
integer drawn from it and recorded), a scheduler that lets exactly one task run
at a time, a simulated clock and counters.  Choice value 0 is always the benign
one (first runnable task, no fault), so a replay with a truncated choice list
continues without faults; the minimiser relies on that.
"""
import hashlib
import random
import sys
import threading
import _thread


class Violation(Exception):
  """The property under check is broken."""

  def __init__(self, kind, message, signature=None):
    super().__init__(f'{kind}: {message}')
    self.kind = kind
    self.message = message
    self.signature = signature or kind


class HarnessError(Exception):
  """The machinery (not the code under test) failed."""


class SimCrash(BaseException):
  """Unwinds a fenced (crashed) task; its later effects are all void."""


class Chooser:
  """Source of all schedule and fault decisions of one run."""

  def __init__(self, seed=None, replay=None):
    self.rng = random.Random(seed)
    self.replay = list(replay) if replay is not None else None
    self.values = []
    self.pos = 0

  def _draw(self, n, gen):
    if self.replay is not None:
      v = self.replay[self.pos] % n if self.pos < len(self.replay) else 0
    else:
      v = gen()
    self.pos += 1
    self.values.append(v)
    return v

  def pick(self, n):
    """Integer in [0, n)."""
    if n <= 1:
      return 0
    return self._draw(n, lambda: self.rng.randrange(n))

  def flip(self, p):
    """True (a fault or variation happens) with probability p."""
    if p <= 0:
      return False
    return bool(self._draw(2, lambda: int(self.rng.random() < p)))

  def choice(self, seq):
    return seq[self.pick(len(seq))]

  def weighted(self, weights):
    """Index; weights are floats; index 0 is the benign one."""
    total = sum(weights)

    def gen():
      x = self.rng.random() * total
      for i, w in enumerate(weights):
        x -= w
        if x < 0:
          return i
      return len(weights) - 1

    return self._draw(len(weights), gen)

  def shuffled(self, seq):
    seq = list(seq)
    out = []
    while seq:
      out.append(seq.pop(self.pick(len(seq))))
    return out


class Clock:
  """Simulated wall clock, in seconds; advanced only by the scheduler."""

  def __init__(self, start=1.7e9):
    self.now = start
    self.covered = 0.0

  def advance(self, dt):
    self.now += dt
    if dt > 0:
      self.covered += dt

  def time(self):
    return self.now


def _locked():
  l = _thread.allocate_lock()
  l.acquire()
  return l


class Task:
  __slots__ = ('name', 'fn', 'host', 'sem', 'thread', 'state', 'fenced',
               'error', 'result', 'blocked_on', 'info', 'trace_gap', 'glob')

  def __init__(self, name, fn, host):
    self.name = name
    self.fn = fn
    self.host = host
    self.sem = _locked()
    self.thread = None
    self.state = 'new'  # new, ready, running, done
    self.fenced = False
    self.error = None
    self.result = None
    self.blocked_on = None
    self.info = {}
    self.trace_gap = 0


_current_world = None
HANG_S = 90.0


def world():
  return _current_world


class World:
  """One simulated execution."""
  last_world = []  # the most recent world, for reports of failed runs

  def __init__(self, chooser):
    self.ch = chooser
    self.clock = Clock()
    self.tasks = []
    self.current = None
    self._main_sem = _locked()
    self._digest = hashlib.sha256()
    self.n_events = 0
    self.counters = {}
    self.trace = []
    self.keep_trace = False
    self.on_event = None  # invariant hook, called in the main thread
    self.pin = 0  # >0: yield points are disabled (atomic section)
    self.notes = []
    self.info = {}

  # -- bookkeeping -----------------------------------------------------------
  def count(self, name, n=1):
    self.counters[name] = self.counters.get(name, 0) + n

  def log(self, text):
    self.n_events += 1
    self._digest.update(text.encode('utf-8', 'replace'))
    self._digest.update(b'\n')
    if self.keep_trace or len(self.trace) < 4000:
      self.trace.append(text)

  def digest(self):
    return self._digest.hexdigest()[:16]

  # -- activation ------------------------------------------------------------
  def __enter__(self):
    global _current_world
    if _current_world is not None:
      raise HarnessError('nested simulated worlds')
    _current_world = self
    self.absorbed = False
    self.last_world[:] = [self]
    return self

  def __exit__(self, *exc):
    global _current_world
    try:
      self.kill_all()
    finally:
      _current_world = None
    return False

  # -- tasks -----------------------------------------------------------------
  def spawn(self, name, fn, host=None, tracer=None):
    t = Task(name, fn, host)
    t.state = 'ready'
    self.tasks.append(t)

    def body():
      t.sem.acquire()
      try:
        if t.fenced:
          raise SimCrash()
        if tracer is not None:
          sys.settrace(tracer(t))
        try:
          t.result = fn()
        finally:
          if tracer is not None:
            sys.settrace(None)
      except BaseException as e:  # pylint: disable=broad-except
        t.error = e
      finally:
        t.state = 'done'
        self._main_sem.release()

    t.thread = threading.Thread(target=body, daemon=True, name=f'sim-{name}')
    t.thread.start()
    return t

  def runnable(self):
    return [t for t in self.tasks if t.state == 'ready' and (
        t.blocked_on is None or t.fenced or t.blocked_on.free_for(t))]

  def resume(self, t):
    """Runs task t until its next yield point (main thread only)."""
    assert self.current is None
    self.current = t
    t.state = 'running'
    t.sem.release()
    if not self._main_sem.acquire(timeout=HANG_S):
      raise Hang(t.name)
    self.current = None
    if t.state == 'done' and t in self.tasks:
      self.tasks.remove(t)
      t.thread.join(5)
    if self.on_event is not None:
      self.on_event()

  def in_task(self):
    t = self.current
    return t if t is not None and t.thread is threading.current_thread() else None

  def yield_point(self, label):
    """Called by code under simulation; hands the baton back."""
    t = self.in_task()
    if t is None or self.pin:
      return
    if t.fenced:
      raise SimCrash()
    self.log(f'{t.name} @{label}')
    t.state = 'ready'
    self._main_sem.release()
    t.sem.acquire()
    if t.fenced:
      raise SimCrash()

  def run_to_end(self, limit=200000):
    """Runs all tasks with random switching (for checks without a runner)."""
    for _ in range(limit):
      r = self.runnable()
      if not r:
        if any(t.state == 'ready' for t in self.tasks):
          raise Violation('deadlock', 'all tasks blocked: '
                          + ', '.join(t.name for t in self.tasks))
        return
      self.resume(r[self.ch.pick(len(r))])
    raise Violation('no-progress', f'tasks still running after {limit} steps')

  def crash(self, tasks):
    for t in tasks:
      t.fenced = True
      self.log(f'CRASH {t.name}')

  def kill_all(self):
    guard = 0
    while self.tasks and guard < 10000:
      guard += 1
      t = self.tasks[0]
      t.fenced = True
      if t.state == 'ready':
        hook, self.on_event = self.on_event, None
        try:
          self.resume(t)
        finally:
          self.on_event = hook
      else:
        self.tasks.remove(t)


class Hang(Violation):

  def __init__(self, name):
    super().__init__('hang', f'task {name} made no progress for {HANG_S:.0f} s')


# -- locks created by the code under test ------------------------------------
class SimLock:
  """Lock/RLock stand-in: never blocks the baton holder for real."""

  def __init__(self, reentrant):
    self._re = reentrant
    self._owner = None
    self._n = 0

  def __getstate__(self):
    raise TypeError("cannot pickle '_thread.lock' object")

  def free_for(self, task):
    return self._n == 0 or (self._re and self._owner is task)

  def acquire(self, blocking=True, timeout=-1):
    w = world()
    me = (w.in_task() if w else None) or threading.get_ident()
    while True:
      if self._n == 0 or (self._re and self._owner == me):
        self._owner = me
        self._n += 1
        return True
      if not blocking:
        return False
      if w is None or not isinstance(me, Task):
        if self._re is False and w is None:
          raise HarnessError('self-deadlock outside simulation')
        raise HarnessError('lock contended outside a simulated task')
      me.blocked_on = self
      w.count('lock_waits')
      w.yield_point('lock')
      me.blocked_on = None

  def release(self):
    if self._n == 0:
      raise RuntimeError('release unlocked lock')
    self._n -= 1
    if self._n == 0:
      self._owner = None

  def locked(self):
    return self._n > 0

  __enter__ = acquire

  def __exit__(self, *a):
    self.release()


_real_lock = threading.Lock
_real_rlock = threading.RLock
_UNDER_TEST = ('/weatherbenchX/', '/public_benchmark/', '/evaluation_scripts/')


def _from_under_test():
  fn = sys._getframe(2).f_code.co_filename
  return any(s in fn for s in _UNDER_TEST)


def _make_lock():
  return SimLock(False) if _from_under_test() else _real_lock()


def _make_rlock():
  return SimLock(True) if _from_under_test() else _real_rlock()


def install_lock_seam():
  threading.Lock = _make_lock
  threading.RLock = _make_rlock


# -- source-line pre-emption of code under test -------------------------------
def line_tracer(w, p_switch, p_raise=0.0, make_exc=None, prefix='/weatherbenchX/',
                max_raises=1, menu=(0, 1, 2, 3, 5, 8, 13, 25, 50, 120)):
  """Trace function factory: at each line of repository code, maybe yield or
  raise.  Gaps between switches are drawn geometrically so that the number of
  recorded choices stays small."""
  state = {'raises': 0}

  def gap():
    # Number of lines until the next switch; drawn from a small menu.
    return menu[w.ch.pick(len(menu))]

  def factory(task):
    task.trace_gap = gap()

    def local(frame, event, arg):
      if event == 'line' and not task.fenced:
        if p_raise and state['raises'] < max_raises:
          pass
        if task.trace_gap <= 0:
          task.trace_gap = gap() if w.ch.flip(p_switch) else 3
          w.count('line_switches')
          w.yield_point(
              f'{frame.f_code.co_name}')
        else:
          task.trace_gap -= 1
      return local

    def glob(frame, event, arg):
      if prefix in frame.f_code.co_filename:
        return local
      return None

    return glob

  return factory


class interrupt_at_line:
  """Context manager: raises `exc` when the n-th line event of repository code
  is reached in this thread.  `fired` tells whether it happened."""

  def __init__(self, n, exc, prefix='/weatherbenchX/'):
    self.n = n
    self.exc = exc
    self.prefix = prefix
    self.seen = 0
    self.fired = False
    self.where = None

  def __enter__(self):
    def local(frame, event, arg):
      if event == 'line' and not self.fired:
        self.seen += 1
        if self.seen >= self.n:
          self.fired = True
          self.where = f'{frame.f_code.co_name}:{self.seen}'
          sys.settrace(None)
          raise self.exc
      return local

    def glob(frame, event, arg):
      if self.fired:
        return None
      return local if self.prefix in frame.f_code.co_filename else None

    self._old = sys.gettrace()
    sys.settrace(glob)
    return self

  def __exit__(self, *a):
    sys.settrace(self._old)
    return False
