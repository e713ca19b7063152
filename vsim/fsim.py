"""Simulated object/file storage behind fsspec, protocol "sim".

Durable state: a dict path -> inode (POSIX-like: a handle keeps writing to its
inode at its own offset after a rename or removal).  Creating, each flushed piece of a write,
renames and removals are separate steps with a yield point before each, so
other tasks and crashes fall between them.  Faults are drawn from the run's
chooser.  A fenced (crashed) task's operations have no effect.
"""
import io
import os
import posixpath

import fsspec
from fsspec.spec import AbstractFileSystem

from vsim import core


class Inode:
  __slots__ = ('data',)

  def __init__(self, data=b''):
    self.data = bytearray(data)


class Storage:
  """World-wide storage content and fault policy."""

  def __init__(self, w, p_fault=0.0, enospc_after=None, kinds=None):
    self.w = w
    self.files = {}
    self.dirs = {'/'}
    self.p_fault = p_fault
    self.kinds = kinds or ('open', 'write', 'close', 'mv', 'mv_after', 'rm',
                           'short')
    self.enospc_after = enospc_after  # total bytes accepted before disk is full
    self.written = 0
    self.faulted_ops = 0
    self.max_faults = 10**9
    self.creator = {}  # path -> task that created it
    self.errors = (OSError,)  # kinds of exceptions that faults raise

  def content(self, path):
    """Bytes currently visible at path, or None."""
    i = self.files.get(path)
    return None if i is None else bytes(i.data)

  def put(self, path, data):
    """Sets up content directly (no simulation)."""
    d = posixpath.dirname(path)
    while d not in ('', '/'):
      self.dirs.add(d)
      d = posixpath.dirname(d)
    self.files[path] = Inode(data)

  def step(self, what):
    t = self.w.in_task()
    if t is not None:
      self.w.yield_point(f'fs:{what}')
      if t.fenced:
        raise core.SimCrash()

  def fault(self, kind):
    """Should this operation fail now?"""
    if kind not in self.kinds or self.faulted_ops >= self.max_faults:
      return False
    if self.w.in_task() is None:
      return False
    if self.w.ch.flip(self.p_fault):
      self.faulted_ops += 1
      self.blame(kind)
      self.w.count(f'fault.fs_{kind}')
      self.w.log(f'FAULT fs {kind}')
      return True
    return False


  def blame(self, kind):
    t = self.w.in_task()
    if t is not None:
      t.info.setdefault('fs_faults', []).append(kind)
      t.info.setdefault('all_faults', []).append(kind)


_STORAGE = None


def set_storage(s):
  global _STORAGE
  _STORAGE = s


def storage():
  if _STORAGE is None:
    raise core.HarnessError('no simulated storage installed')
  return _STORAGE


def _err(msg, eno):
  kinds = storage().errors
  if len(kinds) > 1:
    k = kinds[storage().w.ch.pick(len(kinds))]
    if k is not OSError:
      return k(msg)
  return OSError(eno, msg)


class SimFile(io.RawIOBase):
  """File opened for writing: content becomes visible piece by piece."""

  def __init__(self, st, path, append=False):
    super().__init__()
    self.st = st
    self.path = path
    self.buf = bytearray()
    self.inode = st.files[path]
    self.pos = len(self.inode.data) if append else 0
    self._failed = False

  def writable(self):
    return True

  def write(self, data):
    if self.closed:
      raise ValueError('I/O operation on closed file')
    data = bytes(data)
    self.buf += data
    # Part of the data may reach the disk before close.
    if self.st.w.ch.flip(0.5):
      self._flush_some()
    if self.st.fault('write'):
      raise _err('simulated write error', 5)
    return len(data)

  def _put(self, piece):
    st = self.st
    st.step('write')
    if st.enospc_after is not None and st.written + len(piece) > st.enospc_after:
      room = max(0, st.enospc_after - st.written)
      self._store(piece[:room])
      st.written += room
      st.w.count('fault.fs_enospc')
      st.w.log('FAULT fs enospc')
      st.blame('enospc')
      raise OSError(28, 'No space left on device')
    self._store(piece)
    st.written += len(piece)

  def _store(self, piece):
    d = self.inode.data
    if len(d) < self.pos:
      d.extend(b'\0' * (self.pos - len(d)))
    d[self.pos:self.pos + len(piece)] = piece
    self.pos += len(piece)

  def _flush_some(self):
    if len(self.buf) > 1:
      k = 1 + self.st.w.ch.pick(min(len(self.buf) - 1, 1 << 20))
      piece, self.buf = bytes(self.buf[:k]), self.buf[k:]
      self._put(piece)

  def flush(self):
    if not self.closed and self.buf and not self._failed:
      piece, self.buf = bytes(self.buf), bytearray()
      self._put(piece)

  def tell(self):
    return self.pos + len(self.buf)

  def seek(self, *a):
    raise io.UnsupportedOperation('seek')

  def close(self):
    if self.closed:
      return
    t = self.st.w.in_task()
    fenced = t is not None and t.fenced
    try:
      if not fenced and not self._failed:
        if self.st.fault('short'):
          # Part of the tail is lost and the error is reported at close.
          self._failed = True
          keep = len(self.buf) // 2
          piece, self.buf = bytes(self.buf[:keep]), bytearray()
          if piece:
            self._put(piece)
          raise _err('simulated lost write', 5)
        if self.buf and self.st.w.ch.flip(0.5):
          self._flush_some()
        self.flush()
        if self.st.fault('close'):
          raise _err('simulated close error', 5)
    except BaseException:
      self._failed = True
      self.buf = bytearray()
      raise
    finally:
      super().close()

  def __del__(self):
    # Never flush from the garbage collector.
    self._failed = True
    self.buf = bytearray()


class SimFileSystem(AbstractFileSystem):
  protocol = 'sim'
  root_marker = '/'
  cachable = True

  @classmethod
  def _strip_protocol(cls, path):
    if isinstance(path, list):
      return [cls._strip_protocol(p) for p in path]
    path = str(path)
    if path.startswith('sim://'):
      path = path[len('sim://'):]
    path = posixpath.normpath('/' + path.lstrip('/'))
    return path

  def unstrip_protocol(self, name):
    return 'sim:/' + self._strip_protocol(name)

  # -- namespace ---------------------------------------------------------------
  def _mkdirs(self, path):
    st = storage()
    while path not in ('', '/'):
      st.dirs.add(path)
      path = posixpath.dirname(path)

  def makedirs(self, path, exist_ok=False):
    st = storage()
    path = self._strip_protocol(path)
    st.step('makedirs')
    if path in st.dirs and not exist_ok:
      raise FileExistsError(path)
    self._mkdirs(path)

  def mkdir(self, path, create_parents=True, **kw):
    self.makedirs(path, exist_ok=True)

  def ls(self, path, detail=True, **kw):
    st = storage()
    path = self._strip_protocol(path)
    if path in st.files:
      out = [path]
    else:
      if path not in st.dirs:
        raise FileNotFoundError(2, 'No such file or directory', path)
      base = path.rstrip('/') + '/'
      out = sorted({base + p[len(base):].split('/')[0]
                    for p in list(st.files) + list(st.dirs)
                    if p.startswith(base) and p != base})
    return [self.info(p) for p in out] if detail else out

  def info(self, path, **kw):
    st = storage()
    path = self._strip_protocol(path)
    if path in st.files:
      return {'name': path, 'size': len(st.files[path].data), 'type': 'file'}
    if path in st.dirs:
      return {'name': path, 'size': 0, 'type': 'directory'}
    raise FileNotFoundError(2, 'No such file or directory', path)

  def exists(self, path, **kw):
    st = storage()
    st.step('exists')
    path = self._strip_protocol(path)
    return path in st.files or path in st.dirs

  def created(self, path):
    raise NotImplementedError

  # -- content -----------------------------------------------------------------
  def open(self, path, mode='rb', block_size=None, cache_options=None,
           compression=None, **kw):
    st = storage()
    p = self._strip_protocol(path)
    if 'b' not in mode:
      raw = self.open(path, mode.replace('t', '') + 'b')
      return io.TextIOWrapper(raw, encoding=kw.get('encoding') or 'utf-8')
    st.step(f'open {mode} {canon(posixpath.basename(p))}')
    if 'r' in mode:
      if st.fault('read'):
        raise _err('simulated read error', 5)
      if p not in st.files:
        raise FileNotFoundError(2, 'No such file or directory', p)
      return io.BytesIO(bytes(st.files[p].data))
    if posixpath.dirname(p) not in st.dirs:
      raise FileNotFoundError(2, 'No such directory', posixpath.dirname(p))
    if st.fault('open'):
      raise _err('simulated open error', 5)
    if 'x' in mode and p in st.files:
      raise FileExistsError(17, 'File exists', p)
    if p not in st.files:
      st.files[p] = Inode()
      st.creator[p] = st.w.in_task()
    elif 'a' not in mode:
      del st.files[p].data[:]
    return SimFile(st, p, append='a' in mode)

  def _open(self, path, mode='rb', **kw):
    return self.open(path, mode)

  def cat_file(self, path, start=None, end=None, **kw):
    with self.open(path, 'rb') as f:
      data = f.read()
    return data[start:end]

  def pipe_file(self, path, value, mode='overwrite', **kw):
    with self.open(path, 'wb') as f:
      f.write(value)

  def put_file(self, lpath, rpath, **kw):
    with open(lpath, 'rb') as f:
      self.pipe_file(rpath, f.read())

  def get_file(self, rpath, lpath, **kw):
    with open(lpath, 'wb') as f:
      f.write(self.cat_file(rpath))

  def cp_file(self, path1, path2, **kw):
    data = self.cat_file(path1)
    with self.open(path2, 'wb') as f:
      f.write(data)

  def touch(self, path, truncate=True, **kw):
    with self.open(path, 'wb' if truncate else 'ab'):
      pass

  def mv(self, path1, path2, recursive=False, maxdepth=None, **kw):
    st = storage()
    a, b = self._strip_protocol(path1), self._strip_protocol(path2)
    st.step('mv')
    if a not in st.files:
      raise FileNotFoundError(2, 'No such file or directory', a)
    if st.fault('mv'):
      raise _err('simulated rename error', 5)
    st.files[b] = st.files.pop(a)
    if st.fault('mv_after'):
      raise _err('simulated lost rename reply', 5)
    st.step('mv-done')

  def mv_file(self, path1, path2, **kw):
    self.mv(path1, path2)

  rename = move = mv

  def rm_file(self, path):
    st = storage()
    p = self._strip_protocol(path)
    st.step('rm')
    if p not in st.files:
      raise FileNotFoundError(2, 'No such file or directory', p)
    if st.fault('rm'):
      raise _err('simulated remove error', 5)
    del st.files[p]

  _rm = rm_file

  def rm(self, path, recursive=False, maxdepth=None):
    for p in (path if isinstance(path, list) else [path]):
      p = self._strip_protocol(p)
      st = storage()
      if p in st.dirs and p not in st.files:
        if not recursive:
          raise IsADirectoryError(p)
        for q in [q for q in st.files if q.startswith(p.rstrip('/') + '/')]:
          self.rm_file(q)
        st.dirs.discard(p)
      else:
        self.rm_file(p)

  def modified(self, path):
    raise NotImplementedError


def canon(name):
  """Temp names differ between processes/implementations; keep logs stable."""
  import re
  return re.sub(r'[0-9a-f]{8}-[0-9a-f-]{20,}|[0-9a-f]{16,}|\d{3,}', '*', name)


def install():
  fsspec.register_implementation('sim', SimFileSystem, clobber=True)
