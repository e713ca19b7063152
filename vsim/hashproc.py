"""Processes with other hash seeds, histories and environments.

A server process per hash seed imports everything once and forks a fresh process
for every job, so that a job sees exactly the history its case prescribes and
nothing of earlier jobs.

  python -m vsim.hashproc checks.c12      (jobs on stdin, answers on stdout)
"""
import importlib
import json
import os
import pickle
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

from vsim import core

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIMEOUT_S = 120.0


class Server:

  def __init__(self, module, hash_seed):
    env = dict(os.environ, PYTHONHASHSEED=str(hash_seed))
    self.p = subprocess.Popen(
        [sys.executable, '-m', 'vsim.hashproc', module], cwd=ROOT, env=env,
        stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    self.jobs = 0

  def send(self, job):
    self.p.stdin.write((json.dumps(job) + '\n').encode())
    self.p.stdin.flush()

  def _read(self, n):
    out = b''
    end = time.time() + TIMEOUT_S + 60
    fd = self.p.stdout.fileno()
    while len(out) < n:
      if not select.select([fd], [], [], max(0, end - time.time()))[0]:
        raise core.HarnessError('a job process does not answer')
      x = os.read(fd, n - len(out))
      if not x:
        raise core.HarnessError('a job server has ended')
      out += x
    return out

  def receive(self):
    n = struct.unpack('>Q', self._read(8))[0]
    return pickle.loads(self._read(n))

  def close(self):
    self.p.kill()
    self.p.wait()


def child(mod, job, fd):
  try:
    out = ('ok', mod.job(job))
  except core.Violation as e:
    out = ('violation', (e.kind, e.message))
  except BaseException as e:  # pylint: disable=broad-except
    from vsim import driver
    v = driver.classify(e) if isinstance(e, Exception) else None
    out = (('violation', (v.kind, v.message)) if v is not None else
           ('error', traceback.format_exc()[-3000:]))
  data = pickle.dumps(out)
  with os.fdopen(fd, 'wb') as f:
    f.write(data)


def main():
  sys.stdout.flush()
  answer = os.fdopen(os.dup(1), 'wb')
  os.dup2(2, 1)  # nothing else may write to the answer pipe
  core.install_lock_seam()
  import logging
  import warnings
  logging.disable(logging.CRITICAL)
  warnings.simplefilter('ignore')
  mod = importlib.import_module(sys.argv[1])
  mod.setup_job()
  for line in sys.stdin:
    job = json.loads(line)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
      os.close(r)
      try:
        child(mod, job, w)
      finally:
        os._exit(0)
    os.close(w)
    data = b''
    end = time.time() + TIMEOUT_S
    while True:
      if not select.select([r], [], [], max(0, end - time.time()))[0]:
        os.kill(pid, signal.SIGKILL)
        data = pickle.dumps(('hang', ''))
        break
      x = os.read(r, 1 << 20)
      if not x:
        break
      data += x
    os.close(r)
    os.waitpid(pid, 0)
    if not data:
      data = pickle.dumps(('error', 'the job process ended without an answer'))
    answer.write(struct.pack('>Q', len(data)) + data)
    answer.flush()


if __name__ == '__main__':
  main()
