"""Simulated disk.

A scratch folder of the run is the disk; the seam is ``open``, ``io.open``, the
``os`` calls that change or query the tree and the ``os`` calls on file
descriptors opened below it (tempfile, shutil).  Paths outside the scratch
folder pass straight through (reads only: writing outside is refused).

Every operation below the root is numbered.  The fault plan maps operation
numbers to faults:

  short     a raw write accepts only part of the data (legal, must be retried)
  ENOSPC/EIO/EACCES/EMFILE/EPERM/EROFS/EDQUOT/...   the operation fails with that OSError
  enospc_partial  a raw write stores part of the data, the next one to the file fails
  close_EIO the close fails (write-back error) and the tail of the data is lost
  crash     the process dies before the operation
  crash_mid the process dies in the middle of a raw write
  slow      the operation takes simulated time

When a process dies, buffers of the process are lost.  On a power loss the
disk additionally drops data that was not synced: per file a prefix of the
operations after the last sync survives, the last one possibly torn, possibly
with the length updated and zeros in place of the data.
"""
import builtins
import errno
import io
import os
import sys

from .sched import Killed, Scheduler

_open = io.open
_R = {n: getattr(os, n) for n in ('makedirs', 'mkdir', 'rename', 'replace', 'remove', 'unlink', 'rmdir', 'fsync', 'stat', 'open', 'scandir', 'listdir', 'truncate',
                                       'write', 'read', 'close', 'ftruncate', 'link', 'symlink', 'lstat')}

active = None


ERRNOS = ('ENOSPC', 'EIO', 'EACCES', 'EMFILE', 'EPERM', 'EROFS', 'EDQUOT', 'ENFILE', 'ESTALE', 'ETIMEDOUT', 'ENOENT', 'EBUSY')


class SimRaw(io.RawIOBase):
    def __init__(self, fs, path, mode, real):
        self.fs, self.path, self.real, self._m = fs, path, real, mode
        self.proc = fs.proc
        self.full = False
        self.fd = None if real.closed else real.fileno()
        self.name = path
        self.mode = mode

    def readable(self):
        return self.real.readable()

    def writable(self):
        return self.real.writable()

    def seekable(self):
        return True

    def seek(self, o, w=0):
        return self.real.seek(o, w)

    def tell(self):
        return self.real.tell()

    def fileno(self):
        if sys._getframe(1).f_globals.get('__name__', '').partition('.')[0] in ('PIL', 'numpy', 'shutil'):
            # they would write to the descriptor behind the back of the simulator
            raise io.UnsupportedOperation('fileno')
        return self.real.fileno()

    def isatty(self):
        return False

    def truncate(self, n=None):
        if n is None:
            n = self.tell()
        self.fs._op('truncate', self.path, self.proc)
        self.fs._journal(self.path, ('trunc', n))
        return self.real.truncate(n)

    def readinto(self, b):
        if self.proc.dead:
            raise Killed('dead process')
        f = self.fs._op('read', self.path, self.proc)
        if f == 'short' and len(b) > 1:
            n = max(1, len(b) // 3)
            mv = memoryview(b)[:n]
            return self.real.readinto(mv)
        return self.real.readinto(b)

    def write(self, b):
        data = bytes(b)
        if self.proc.dead:
            raise Killed('dead process')
        f = self.fs._op('write', self.path, self.proc, data=data)
        frac = self.fs.last_arg
        if self.full:
            self.full = False
            raise OSError(errno.ENOSPC, 'No space left on device', self.path)
        if f == 'short' and len(data) > 1:
            data = data[:max(1, int(len(data) * frac))]
        elif f in ('enospc_partial', 'crash_mid'):
            part = data[:int(len(data) * frac)]
            self._put(part)
            if f == 'crash_mid':
                self.proc.kill()
            if part:
                # like a kernel: this write is short, the next one fails
                self.full = True
                return len(part)
            raise OSError(errno.ENOSPC, 'No space left on device', self.path)
        self._put(data)
        return len(data)

    def _put(self, data):
        off = self.real.tell()
        self.fs._journal(self.path, ('write', off, data))
        self.real.write(data)

    def close(self):
        if self.closed:
            return
        try:
            if not self.proc.dead and not self.fs.down:
                f = self.fs._op('close', self.path, self.proc)
                if f == 'close_EIO' and self.writable():
                    size = self.real.seek(0, 2)
                    keep = int(size * self.fs.last_arg)
                    self.real.truncate(keep)
                    self.fs._journal(self.path, ('trunc', keep))
                    raise OSError(errno.EIO, 'write-back error', self.path)
        finally:
            try:
                self.fs.fds.pop(self.fd, None)
                self.real.close()
            finally:
                super().close()


class Proc:
    """A simulated process as far as the disk is concerned."""

    def __init__(self, name='p0'):
        self.name = name
        self.dead = False

    def kill(self):
        self.dead = True
        raise Killed('%s killed' % self.name)


class SimFS:
    def __init__(self, root, faults=None, bufsize=8192, clock=None, rng_torn=None, trace=True):
        self.root = os.path.realpath(root) + os.sep
        self.faults = {int(k): v for k, v in (faults or {}).items()}
        self.bufsize = bufsize
        self.proc = Proc()
        self.n = 0
        self.fired = []
        self.ops = []
        self.last_arg = 0.5
        self.journal = {}      # path -> [durable bytes or None, ops]
        self.down = False
        self.clock = clock
        self.sched_points = False
        self.internal = False      # simulator's own accesses
        self.on_op = None
        self.before_op = None
        self.procs = {}        # thread ident -> Proc
        self.fds = {}          # descriptors from os.open -> SimRaw

    # ------------------------------------------------------------- internals
    def cur(self):
        if self.procs:
            import _thread
            return self.procs.get(_thread.get_ident(), self.proc)
        return self.proc

    def inside(self, path):
        if isinstance(path, int):
            return False
        p = os.path.realpath(os.path.join(os.getcwd(), os.fspath(path)))
        return (p + os.sep).startswith(self.root)

    def _rel(self, path):
        return os.path.relpath(os.path.realpath(os.fspath(path)), self.root)

    def _op(self, kind, path, proc=None, data=None):
        """number the operation, apply its fault"""
        if self.internal:
            return None
        if self.sched_points and Scheduler.current is not None:
            if self.before_op is not None:
                self.before_op(self, kind, path)
            Scheduler.current.point()
        proc = proc or self.cur()
        if proc.dead:
            raise Killed('dead process')
        self.n += 1
        rel = self._rel(path)
        self.ops.append((proc.name, kind, rel))
        if self.on_op is not None:
            self.on_op(self, kind, rel, data)
        f = self.faults.get(self.n)
        if f is None:
            return None
        kind_f = f['kind']
        self.last_arg = f.get('arg', 0.5)
        legal = {'short': ('write', 'read'), 'enospc_partial': ('write',), 'crash_mid': ('write',), 'close_EIO': ('close',)}
        if kind_f in legal and kind not in legal[kind_f]:
            if kind_f == 'close_EIO':
                kind_f = 'EIO'
            elif kind_f == 'crash_mid':
                kind_f = 'crash'
            elif kind_f == 'enospc_partial':
                kind_f = 'ENOSPC'
            else:
                return None
        if kind in ('stat', 'list', 'read') and kind_f in ERRNOS:
            if kind != 'read':
                return None
            kind_f = 'EIO'
        if kind == 'close' and kind_f in ERRNOS:
            kind_f = 'close_EIO'
        self.fired.append((kind_f, kind, rel))
        if kind_f == 'slow':
            if self.clock is not None:
                self.clock.advance(self.last_arg * 100)
            return None
        if kind_f == 'crash':
            proc.kill()
        if kind_f in ERRNOS:
            raise OSError(getattr(errno, kind_f), 'injected ' + kind_f, str(path))
        return kind_f

    def _journal(self, path, op):
        p = os.path.realpath(path)
        if p not in self.journal:
            self.journal[p] = [None, []]
        self.journal[p][1].append(op)

    def _begin(self, path):
        """first modification after the last sync: remember durable content"""
        p = os.path.realpath(path)
        if p not in self.journal:
            try:
                with _open(p, 'rb') as f:
                    self.journal[p] = [f.read(), []]
            except OSError:
                self.journal[p] = [None, []]

    def sync(self, path=None):
        if path is None:
            self.journal.clear()
        else:
            self.journal.pop(os.path.realpath(path), None)

    def power_loss(self, rng):
        """apply the loss of unsynced data to the real files; returns what happened"""
        out = []
        self.internal = True
        for p, (base, ops) in sorted(self.journal.items()):
            if not ops:
                continue
            n = rng.randrange(len(ops) + 1)
            data = bytearray(base if base is not None else b'')
            exists = base is not None or n > 0
            style = rng.pick({'prefix': 5, 'torn': 3, 'zeros': 2})
            for k, op in enumerate(ops[:n]):
                if op[0] == 'trunc':
                    del data[op[1]:]
                    data.extend(b'\0' * (op[1] - len(data)))
                elif op[0] == 'write':
                    d = op[2]
                    if k == n - 1 and style == 'torn' and d:
                        d = d[:rng.randrange(len(d) + 1)]
                    if k == n - 1 and style == 'zeros' and d:
                        c = rng.randrange(len(d) + 1)
                        d = d[:c] + b'\0' * (len(d) - c)
                    if len(data) < op[1]:
                        data.extend(b'\0' * (op[1] - len(data)))
                    data[op[1]:op[1] + len(d)] = d
            if exists:
                with _open(p, 'wb') as f:
                    f.write(data)
            elif self._saved_path[0](p):
                _R['remove'](p)
            out.append((self._rel(p), n, len(ops), style))
        self.journal.clear()
        self.internal = False
        return out

    # ------------------------------------------------------------ entry points
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if opener is not None and not isinstance(file, int) and self.inside(file):
            flags = {'r': os.O_RDONLY, 'w': os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 'x': os.O_WRONLY | os.O_CREAT | os.O_EXCL,
                     'a': os.O_WRONLY | os.O_CREAT | os.O_APPEND}[mode.strip('bt+U')[0]]
            if '+' in mode:
                flags = flags & ~os.O_WRONLY | os.O_RDWR
            file, opener = opener(file, flags | os.O_CLOEXEC), None
        if isinstance(file, int) and file in self.fds:
            raw = self.fds[file]
            if not closefd:
                raw.fs.fds.pop(file)
                raw = SimRaw(self, raw.path, raw.mode, _open(file, raw.mode, 0, closefd=False))
            return self._wrap(raw, mode, buffering, encoding, errors, newline)
        if opener is not None or not self.inside(file):
            if opener is not None or isinstance(file, int) or not any(c in mode for c in 'wax+') or file == os.devnull:
                return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            raise PermissionError('simulated disk: refusing to write %r outside the scratch folder' % (file,))
        writing = any(c in mode for c in 'wax+')
        self._op('open-w' if writing else 'open-r', file)
        if writing:
            self._begin(file)
        rawmode = ''.join(c for c in mode if c in 'rwax+') + 'b'
        real = _open(file, rawmode, 0)
        if 'w' in mode or 'x' in mode:
            self._journal(file, ('trunc', 0))
        raw = SimRaw(self, os.path.realpath(os.fspath(file)), rawmode, real)
        raw.proc = self.cur()
        return self._wrap(raw, mode, buffering, encoding, errors, newline)

    def _wrap(self, raw, mode, buffering, encoding, errors, newline):
        writing = any(c in mode for c in 'wax+')
        if 'b' in mode and buffering == 0:
            return raw
        if '+' in mode:
            buf = io.BufferedRandom(raw, self.bufsize)
        elif writing:
            buf = io.BufferedWriter(raw, self.bufsize)
        else:
            buf = io.BufferedReader(raw, self.bufsize)
        if 'b' in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, line_buffering=(buffering == 1))

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        p = self._at(path, dir_fd)
        if isinstance(path, int) or not self.inside(p) or os.path.isdir(p):
            return _R['open'](path, flags, mode, dir_fd=dir_fd)
        writing = flags & (os.O_WRONLY | os.O_RDWR)
        self._op('open-w' if writing else 'open-r', p)
        if writing:
            self._begin(p)
        fd = _R['open'](path, flags, mode, dir_fd=dir_fd)
        if flags & os.O_TRUNC:
            self._journal(p, ('trunc', 0))
        m = 'r+b' if flags & os.O_RDWR else 'ab' if flags & os.O_APPEND else 'wb' if writing else 'rb'
        real = io.FileIO(fd, m)
        self.fds[fd] = SimRaw(self, os.path.realpath(p), m, real)
        self.fds[fd].proc = self.cur()
        return fd

    def os_write(self, fd, data):
        return self.fds[fd].write(data) if fd in self.fds else _R['write'](fd, data)

    def os_read(self, fd, n):
        return self.fds[fd].read(n) if fd in self.fds else _R['read'](fd, n)

    def os_close(self, fd):
        return self.fds[fd].close() if fd in self.fds else _R['close'](fd)

    def os_truncate(self, path, n):
        if isinstance(path, int):
            return self.fds[path].truncate(n) if path in self.fds else _R['ftruncate'](path, n)
        if not self.inside(path):
            raise PermissionError('simulated disk: refusing truncate(%r)' % (path,))
        self._op('truncate', path)
        self._begin(path)
        self._journal(path, ('trunc', n))
        return _R['truncate'](path, n)

    def _at(self, path, dir_fd=None):
        if dir_fd is not None and not os.path.isabs(os.fspath(path)):
            return os.path.join(os.readlink('/proc/self/fd/%d' % dir_fd), os.fspath(path))
        return path

    def install(self):
        global active
        active = self
        builtins.open = self.open
        io.open = self.open
        fs = self

        def wrap1(name, kind, second=False):
            real = _R[name]

            def f(path, *a, **k):
                p = path if isinstance(path, int) else fs._at(path, k.get('dir_fd'))
                if isinstance(path, int) or not fs.inside(p):
                    if kind in ('stat', 'list') or isinstance(path, int):
                        return real(path, *a, **k)
                    raise PermissionError('simulated disk: refusing %s(%r)' % (name, path))
                fs._op(kind, p)
                r = real(path, *a, **k)
                if kind == 'remove':
                    fs.journal.pop(os.path.realpath(p), None)
                return r
            return f
        os.mkdir = wrap1('mkdir', 'mkdir')
        os.remove = wrap1('remove', 'remove')
        os.unlink = wrap1('unlink', 'remove')
        os.rmdir = wrap1('rmdir', 'rmdir')
        os.stat = wrap1('stat', 'stat')
        os.listdir = wrap1('listdir', 'list')
        os.open, os.write, os.read, os.close = fs.os_open, fs.os_write, fs.os_read, fs.os_close
        os.truncate = os.ftruncate = fs.os_truncate
        # os.path.exists & co use os.stat through the os module in posixpath/genericpath
        import genericpath

        def exists(path):
            if isinstance(path, int) or not fs.inside(path):
                return _exists(path)
            fs._op('stat', path)
            return _exists(path)

        def isdir(path):
            if isinstance(path, int) or not fs.inside(path):
                return _isdir(path)
            fs._op('stat', path)
            return _isdir(path)

        def isfile(path):
            if isinstance(path, int) or not fs.inside(path):
                return _isfile(path)
            fs._op('stat', path)
            return _isfile(path)
        _exists, _isdir, _isfile = os.path.exists, os.path.isdir, os.path.isfile
        self._saved_path = (_exists, _isdir, _isfile)
        os.path.exists, os.path.isdir, os.path.isfile = exists, isdir, isfile

        def two(name):
            real = _R[name]

            def f(src, dst, *a, **k):
                src, dst = fs._at(src, k.pop('src_dir_fd', None)), fs._at(dst, k.pop('dst_dir_fd', None))
                if not fs.inside(src) or not fs.inside(dst):
                    raise PermissionError('simulated disk: refusing %s' % name)
                fs._op('rename', dst)
                r = real(src, dst, *a, **k)
                s, d = os.path.realpath(src), os.path.realpath(dst)
                if s in fs.journal:
                    fs.journal[d] = fs.journal.pop(s)
                else:
                    fs.journal.pop(d, None)
                return r
            return f
        os.rename = two('rename')
        os.replace = two('replace')

        def link(src, dst, *a, **k):
            if not fs.inside(dst):
                raise PermissionError('simulated disk: refusing link')
            fs._op('rename', dst)
            return _R['link'](src, dst, *a, **k)
        os.link = link

        def fsync(fd):
            r = _R['fsync'](fd) if not hasattr(fd, 'fileno') else _R['fsync'](fd.fileno())
            try:
                fs.sync(os.readlink('/proc/self/fd/%d' % (fd if isinstance(fd, int) else fd.fileno())))
            except OSError:
                pass
            return r
        os.fsync = fsync

    def uninstall(self):
        global active
        active = None
        builtins.open = _open
        io.open = _open
        for n, f in _R.items():
            setattr(os, n, f)
        os.path.exists, os.path.isdir, os.path.isfile = self._saved_path

    def __enter__(self):
        self.install()
        return self

    def __exit__(self, *a):
        self.uninstall()
        return False
