"""Identity and time of simulated processes: pids, host names, uuids, clocks.

Code running inside a simulated task sees the identity of its simulated host:
process ids and host names repeat between containers, clocks are coarse, may be
skewed and may jump; uuids and the random generator differ between processes, as
in reality.  Outside simulated tasks everything is untouched.
"""
import os
import random
import socket
import time
import uuid

from vsim import core

_real = dict(uuid1=uuid.uuid1, uuid4=uuid.uuid4, getpid=os.getpid,
             time=time.time, time_ns=time.time_ns, hostname=socket.gethostname,
             monotonic=time.monotonic, perf=time.perf_counter, sleep=time.sleep,
             urandom=os.urandom, getnode=uuid.getnode)


def _task():
  w = core.world()
  return (w, w.in_task()) if w is not None else (None, None)


def _host(t):
  return t.host if t.host is not None else t


def _ident(t):
  """Per-process unique stream, deterministic within a run."""
  r = t.info.get('rng')
  if r is None:
    w = core.world()
    w.n_streams = getattr(w, 'n_streams', 0) + 1
    r = t.info['rng'] = random.Random(f'stream-{w.n_streams}')
  return r


def _now(w, t):
  skew = t.info.get('skew', 0.0)
  # Coarse ticks, so that equal readings are common.
  return float(int((w.clock.time() + skew) * 10)) / 10


def uuid1(node=None, clock_seq=None):
  w, t = _task()
  if t is None:
    return _real['uuid1'](node, clock_seq)
  n = _ident(t).getrandbits(48) if node is None else node
  ts = int(_now(w, t) * 1e7) & ((1 << 60) - 1)
  seq = _ident(t).getrandbits(14)
  return uuid.UUID(fields=(ts & 0xffffffff, (ts >> 32) & 0xffff,
                           (ts >> 48) & 0x0fff, (seq >> 8) & 0x3f, seq & 0xff, n),
                   version=1)


def uuid4():
  _, t = _task()
  if t is None:
    return _real['uuid4']()
  return uuid.UUID(int=_ident(t).getrandbits(128), version=4)


def getpid():
  _, t = _task()
  return _real['getpid']() if t is None else 7


def gethostname():
  _, t = _task()
  return _real['hostname']() if t is None else 'worker'


def now():
  w, t = _task()
  return _real['time']() if t is None else _now(w, t)


def now_ns():
  w, t = _task()
  return _real['time_ns']() if t is None else int(_now(w, t) * 1e9)


def monotonic():
  w, t = _task()
  return _real['monotonic']() if t is None else _now(w, t)


def perf():
  w, t = _task()
  return _real['perf']() if t is None else _now(w, t)


def sleep(s):
  w, t = _task()
  if t is None:
    return _real['sleep'](s)
  w.clock.advance(min(float(s), 3600.0))
  w.yield_point('sleep')


def urandom(n):
  _, t = _task()
  return _real['urandom'](n) if t is None else bytes(
      _ident(t).getrandbits(8) for _ in range(n))


def getnode():
  _, t = _task()
  return _real['getnode']() if t is None else 0x0242ac110002  # docker default


def install():
  uuid.uuid1, uuid.uuid4, uuid.getnode = uuid1, uuid4, getnode
  os.getpid = getpid
  os.urandom = urandom
  socket.gethostname = gethostname
  time.time, time.time_ns = now, now_ns
  time.monotonic, time.perf_counter, time.sleep = monotonic, perf, sleep
