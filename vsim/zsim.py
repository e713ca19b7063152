"""Simulated object store for Zarr data: in memory, atomic per key, with faults.

Zarr performs its storage operations on helper threads, so faults are decided by
the key and the number of earlier operations on it, never by arrival order.
"""
import hashlib

from fsspec.asyn import AsyncFileSystem
from fsspec.registry import register_implementation

from vsim import core


class ZStore:

  def __init__(self, w, seed=0, p_put=0.0, p_get=0.0, max_per_key=2, on=False,
               max_total=12):
    self.w = w
    self.files = {}
    self.seed = seed
    self.p_put = p_put
    self.p_get = p_get
    self.max_per_key = max_per_key
    self.max_total = max_total
    self.on = on  # faults are injected only while on
    self.tries = {}
    self.failed = 0
    self.lost = set()  # keys that cannot be read (permanently)

  def fault(self, op, key):
    """None, 'before' or 'after'."""
    if not self.on:
      return None
    n = self.tries.get((op, key), 0)
    p = self.p_put if op == 'put' else self.p_get
    if n >= self.max_per_key or self.failed >= self.max_total:
      return None
    self.tries[op, key] = n + 1
    h = hashlib.sha256(f'{self.seed}/{op}/{key}/{n}'.encode()).digest()
    x = int.from_bytes(h[:4], 'big') / 2**32
    if x >= p:
      return None
    self.failed += 1
    self.w.count(f'fault.zarr_{op}')
    return 'after' if op == 'put' and h[4] % 3 == 0 else 'before'


_CUR = [None]


def set_store(s):
  _CUR[0] = s
  ZimFS.clear_instance_cache()


def cur():
  if _CUR[0] is None:
    raise core.HarnessError('no simulated Zarr store installed')
  return _CUR[0]


def _err(op, key):
  h = hash_of(op + key) % 3
  cls = (OSError, TimeoutError, ConnectionResetError)[h]
  return cls(f'injected {op} failure')


def hash_of(s):
  return int.from_bytes(hashlib.sha256(s.encode()).digest()[:4], 'big')


class ZimFS(AsyncFileSystem):
  protocol = 'zim'
  cachable = False
  async_impl = True

  @classmethod
  def _strip_protocol(cls, path):
    if isinstance(path, list):
      return [cls._strip_protocol(p) for p in path]
    path = str(path)
    if path.startswith('zim://'):
      path = path[len('zim://'):]
    path = '/' + path.strip('/')
    return path

  def unstrip_protocol(self, name):
    return 'zim://' + self._strip_protocol(name)

  async def _cat_file(self, path, start=None, end=None, **kw):
    path = self._strip_protocol(path)
    s = cur()
    if s.fault('get', path):
      raise _err('get', path)
    if path in s.lost:
      raise OSError(f'cannot read {path}')
    if path not in s.files:
      raise FileNotFoundError(path)
    return s.files[path][start:end]

  async def _pipe_file(self, path, value, **kw):
    path = self._strip_protocol(path)
    s = cur()
    f = s.fault('put', path)
    if f == 'before':
      raise _err('put', path)
    s.files[path] = bytes(value)
    if f == 'after':
      raise _err('put', path)

  async def _rm_file(self, path, **kw):
    path = self._strip_protocol(path)
    if cur().files.pop(path, None) is None:
      raise FileNotFoundError(path)

  async def _rm(self, path, recursive=False, **kw):
    paths = path if isinstance(path, list) else [path]
    for p in paths:
      p = self._strip_protocol(p)
      for k in [k for k in cur().files if k == p or k.startswith(p + '/')]:
        del cur().files[k]

  async def _cp_file(self, a, b, **kw):
    cur().files[self._strip_protocol(b)] = cur().files[self._strip_protocol(a)]

  async def _info(self, path, **kw):
    path = self._strip_protocol(path)
    f = cur().files
    if path in f:
      return dict(name=path, size=len(f[path]), type='file')
    pre = path.rstrip('/') + '/'
    if any(k.startswith(pre) for k in f):
      return dict(name=path, size=0, type='directory')
    raise FileNotFoundError(path)

  async def _ls(self, path, detail=True, **kw):
    path = self._strip_protocol(path)
    f = cur().files
    pre = path.rstrip('/') + '/'
    out = {}
    if path in f:
      out[path] = dict(name=path, size=len(f[path]), type='file')
    for k in sorted(f):
      if k.startswith(pre):
        head, _, rest = k[len(pre):].partition('/')
        out[pre + head] = dict(name=pre + head, size=0 if rest else len(f[k]),
                               type='directory' if rest else 'file')
    if not out:
      raise FileNotFoundError(path)
    return list(out.values()) if detail else sorted(out)

  async def _mkdir(self, path, create_parents=True, **kw):
    pass

  async def _makedirs(self, path, exist_ok=False):
    pass

  async def _rmdir(self, path):
    pass

  async def _put_file(self, lpath, rpath, **kw):
    with open(lpath, 'rb') as fh:
      await self._pipe_file(rpath, fh.read())

  async def _get_file(self, rpath, lpath, **kw):
    with open(lpath, 'wb') as fh:
      fh.write(await self._cat_file(rpath))


def install():
  register_implementation('zim', ZimFS, clobber=True)
