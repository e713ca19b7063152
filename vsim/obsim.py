"""Simulated store of Parquet observation files (obs://), read only, with faults.

pyarrow reads from its own threads, so every fault is fixed when a file is opened
(by path and number of earlier opens), never by arrival order of reads.
"""
import io

from fsspec.registry import register_implementation
from fsspec.spec import AbstractFileSystem

from vsim import core

ERRORS = [OSError, PermissionError, TimeoutError, ConnectionResetError,
          FileNotFoundError, EOFError, MemoryError]


class ObStore:

  def __init__(self, w, content):
    self.w = w
    self.content = content  # path -> bytes or None (no such file)
    self.cache = {}
    self.faults = {}  # path -> dict(kind, k)
    self.hit = set()  # paths on which a fault took effect
    self.opened = []

  def get(self, path):
    if path not in self.cache:
      self.cache[path] = self.content(path)
    return self.cache[path]

  def damaged(self, path):
    """Content as the storage shows it now, or an exception."""
    data = self.get(path)
    f = self.faults.get(path)
    if f is None or data is None:
      return data
    kind = f['kind']
    out = {'missing': lambda: None, 'zero': lambda: b'',
           'truncated': lambda: data[:f['k'] % len(data)],
           'no_footer': lambda: data[:-8] + bytes(8),
           'text': lambda: b'<html>503 Service Unavailable</html>' * 9,
           'garbage_footer': lambda: data[:-60] + bytes(
               (b * 7 + 3) % 256 for b in data[-60:-8]) + data[-8:],
           }.get(kind, lambda: data)()
    if out is not data:
      self.hit.add(path)
    return out


_CUR = [None]


def set_store(s):
  _CUR[0] = s
  ObFS.clear_instance_cache()


def cur():
  if _CUR[0] is None:
    raise core.HarnessError('no simulated observation store installed')
  return _CUR[0]


class _File(io.BytesIO):
  """Fails, or ends early, from byte `limit` on."""

  def __init__(self, data, path, fault):
    super().__init__(data)
    self.path = path
    self.fault = fault
    self.limit = fault['k'] % max(len(data), 1) if fault else None

  def read(self, n=-1):
    if self.fault is None:
      return super().read(n)
    pos = self.tell()
    data = super().read(n)
    if pos + len(data) <= self.limit:
      return data
    cur().hit.add(self.path)
    if self.fault['kind'] == 'short':
      return data[:max(0, self.limit - pos)]
    raise ERRORS[self.fault['err'] % 4](f'injected read error at {self.path}')

  def readinto(self, b):
    data = self.read(len(b))
    b[:len(data)] = data
    return len(data)


class ObFS(AbstractFileSystem):
  protocol = 'obs'
  cachable = False

  @classmethod
  def _strip_protocol(cls, path):
    path = str(path)
    if path.startswith('obs://'):
      path = path[len('obs://'):]
    return '/' + path.strip('/')

  def info(self, path, **kw):
    path = self._strip_protocol(path)
    s = cur()
    if not path.endswith(('.parquet', '.nc')):
      return dict(name=path, size=0, type='directory')
    f = s.faults.get(path)
    if f and f['kind'] == 'stat':
      s.hit.add(path)
      raise ERRORS[f['err'] % len(ERRORS)](f'injected stat error at {path}')
    data = s.damaged(path)
    if data is None:
      raise FileNotFoundError(path)
    return dict(name=path, size=len(data), type='file')

  def ls(self, path, detail=True, **kw):
    path = self._strip_protocol(path)
    if path.endswith(('.parquet', '.nc')):
      i = self.info(path)
      return [i] if detail else [path]
    return []

  def _open(self, path, mode='rb', **kw):
    path = self._strip_protocol(path)
    if 'r' not in mode:
      raise PermissionError(path)
    s = cur()
    f = s.faults.get(path)
    if f and f['kind'] == 'open':
      s.hit.add(path)
      raise ERRORS[f['err'] % len(ERRORS)](f'injected open error at {path}')
    data = s.damaged(path)
    if data is None:
      raise FileNotFoundError(path)
    s.opened.append(path)
    return _File(data, path, f if f and f['kind'] in ('read', 'short') else None)


KINDS = ['missing', 'zero', 'truncated', 'no_footer', 'text', 'garbage_footer',
         'stat', 'open', 'read', 'short']


def install():
  register_implementation('obs', ObFS, clobber=True)
