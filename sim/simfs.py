"""In-memory file system behind the seams builtins.open / io.open / os.*.

Only paths under /simfs (and descriptors it handed out) are simulated;
everything else passes through to the real functions.
"""
import builtins
import errno
import io
import itertools
import os
import stat as statmod
import sys
import _io

from .world import World, HarnessError

ROOT = '/simfs'
FD_BASE = 1 << 20


class MissingFile(KeyError):
    """The harness looks for the output of an operation that reported success."""


class Inode(object):
    __slots__ = ('num', 'data', 'nlink', 'mode', 'owner', 'mtime', 'xattrs')

    def __init__(self, num):
        self.num = num
        self.data = bytearray()
        self.nlink = 0
        self.mode = 0o100644
        self.owner = (0, 0)
        self.mtime = MTIME
        self.xattrs = ()


# one run takes less time than the resolution of the time stamps
MTIME = 1500000000123456789


class SimFS(object):
    def __init__(self):
        self.paths = {}
        self.links = {}          # symlink path -> target path
        self.dirs = {ROOT}
        self.next_ino = 1
        self.cwd = None          # working directory, once inside
        self.log = None          # list of mutation records when recording
        self.fds = {}
        self.next_fd = FD_BASE

    # -- direct (unsimulated) access for the harness ---------------------
    def put(self, path, data):
        ino = self.paths.get(path)
        if ino is None:
            ino = self._new(path)
        ino.data[:] = data
        return ino

    def get(self, path):
        real = self.res(path)
        if real not in self.paths:
            raise MissingFile(path)
        return bytes(self.paths[real].data)

    def exists(self, path):
        return self.res(path) in self.paths

    def remove(self, path):
        ino = self.paths.pop(path, None)
        if ino is not None:
            ino.nlink -= 1

    def hardlink(self, a, b):
        ino = self.paths[a]
        self.paths[b] = ino
        ino.nlink += 1

    def symlink(self, target, path):
        self.links[path] = target

    def snapshot(self):
        return {p: bytes(i.data) for p, i in self.paths.items()}

    def attributes(self):
        return {p: (i.mode, i.owner, i.mtime, i.xattrs) for p, i in self.paths.items()}

    def clone(self):
        """Independent copy (contents and links)."""
        fs = SimFS()
        memo = {}
        for p, i in self.paths.items():
            if id(i) not in memo:
                j = Inode(i.num)
                j.data = bytearray(i.data)
                j.nlink = i.nlink
                j.mode, j.owner, j.mtime, j.xattrs = i.mode, i.owner, i.mtime, i.xattrs
                memo[id(i)] = j
            fs.paths[p] = memo[id(i)]
        fs.links = dict(self.links)
        fs.dirs = set(self.dirs)
        fs.next_ino = self.next_ino
        fs.cwd = self.cwd
        return fs

    def res(self, path):
        for _ in range(8):
            if path in self.links:
                path = self.links[path]
            else:
                return path
        return path

    def _new(self, path):
        ino = Inode(self.next_ino)
        self.next_ino += 1
        ino.nlink = 1
        self.paths[path] = ino
        return ino

    def record(self, *rec):
        if self.log is not None:
            self.log.append(rec)

    def truncate_ino(self, ino, size):
        n = len(ino.data)
        if size < n:
            del ino.data[size:]
        else:
            ino.data.extend(b'\0' * (size - n))
        self.record('trunc', ino.num, size)


def norm(path):
    if isinstance(path, int):
        return path
    p = os.fspath(path)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p.startswith('/') and World.cur is not None and World.cur.fs.cwd is not None:
        p = os.path.normpath(os.path.join(World.cur.fs.cwd, p))
    return p


def is_sim(path):
    if World.cur is None:
        return False
    try:
        if isinstance(path, int):
            return path >= FD_BASE
        p = os.fspath(path)
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p.startswith('/') and World.cur.fs.cwd is not None:
        return True
    return p == ROOT or p.startswith(ROOT + '/')


def spath(path):
    p = norm(path)
    if '/../' in p or '/./' in p or '//' in p or p.endswith('/..') or p.endswith('/'):
        p = os.path.normpath(p)
    return p


class SimRaw(io.RawIOBase):
    """A raw file on the simulated file system."""

    def __init__(self, path, flags, world=None):
        self._closed_sim = True
        self.world = w = world or World.cur
        fs = w.fs
        self.path = path
        acc = flags & os.O_ACCMODE
        self._r = acc in (os.O_RDONLY, os.O_RDWR)
        self._w = acc in (os.O_WRONLY, os.O_RDWR)
        self._a = bool(flags & os.O_APPEND)
        w.event('open', path, flags & (os.O_ACCMODE | os.O_TRUNC | os.O_CREAT
                                       | os.O_EXCL | os.O_APPEND))
        real = fs.res(path)
        if real in fs.dirs:
            raise IsADirectoryError(errno.EISDIR, 'Is a directory', path)
        ino = fs.paths.get(real)
        if ino is None:
            if not flags & os.O_CREAT:
                raise FileNotFoundError(errno.ENOENT, 'No such file or directory', path)
            if os.path.dirname(real) not in fs.dirs:
                raise FileNotFoundError(errno.ENOENT, 'No such file or directory', path)
            ino = fs._new(real)
            fs.record('create', real, ino.num)
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise FileExistsError(errno.EEXIST, 'File exists', path)
            if flags & os.O_TRUNC and self._w and len(ino.data):
                fs.truncate_ino(ino, 0)
            elif flags & os.O_TRUNC and self._w:
                fs.record('trunc', ino.num, 0)
        self.ino = ino
        self.pos = 0
        self.fd = fs.next_fd
        fs.next_fd += 1
        fs.fds[self.fd] = self
        self._closed_sim = False
        self.seekable_flag = True
        w.handles.add(self)
        self.name = path
        self.unlinked_ok = False

    # mode helpers expected by io
    def readable(self):
        self._chk()
        return self._r

    def writable(self):
        self._chk()
        return self._w

    def seekable(self):
        self._chk()
        return self.seekable_flag

    def fileno(self):
        self._chk()
        return self.fd

    def isatty(self):
        return False

    def _chk(self):
        if self._closed_sim:
            raise ValueError('I/O operation on closed file')

    def readinto(self, b):
        self._chk()
        if not self._r:
            raise io.UnsupportedOperation('not readable')
        w = self.world
        mv = memoryview(b).cast('B')
        w.event('read', self.path, self.pos, len(mv))
        data = self.ino.data
        n = max(0, min(len(mv), len(data) - self.pos))
        if n:
            n = w.io_size(n, 'read')
            mv[:n] = data[self.pos:self.pos + n]
            self.pos += n
        return n

    def write(self, b):
        self._chk()
        if not self._w:
            raise io.UnsupportedOperation('not writable')
        w = self.world
        mv = memoryview(b).cast('B')
        n = len(mv)
        pos = len(self.ino.data) if self._a else self.pos
        mod = w.event('write', self.path, pos, n)
        if n == 0:
            return 0
        if mod and 'short' in mod:
            n = max(0, min(n, int(n * mod['short'])))
            if n == 0:
                raise OSError(errno.ENOSPC, 'simulated: no space left', self.path)
        else:
            n = w.io_size(n, 'write')
        data = self.ino.data
        if pos > len(data):
            data.extend(b'\0' * (pos - len(data)))
        chunk = bytes(mv[:n])
        data[pos:pos + n] = chunk
        w.digest.update(chunk[:64])
        w.fs.record('write', self.ino.num, pos, chunk)
        self.pos = pos + n
        return n

    def seek(self, off, whence=0):
        self._chk()
        if not self.seekable_flag:
            raise io.UnsupportedOperation('seek')
        self.world.event('seek', self.path, off, whence)
        if whence == 0:
            new = off
        elif whence == 1:
            new = self.pos + off
        elif whence == 2:
            new = len(self.ino.data) + off
        else:
            raise ValueError('whence')
        if new < 0 or new > 2 ** 63 - 1:
            raise OSError(errno.EINVAL, 'Invalid argument')
        self.pos = new
        return new

    def tell(self):
        self._chk()
        return self.pos

    def truncate(self, size=None):
        self._chk()
        if not self._w:
            raise io.UnsupportedOperation('truncate')
        if size is None:
            size = self.pos
        self.world.event('trunc', self.path, size)
        self.world.fs.truncate_ino(self.ino, size)
        return size

    def __del__(self):
        _dropped(self, io.RawIOBase)

    def close(self):
        if self._closed_sim:
            if not self.closed:
                io.RawIOBase.close(self)
            return
        self._closed_sim = True
        self.world.handles.discard(self)
        self.world.fs.fds.pop(self.fd, None)
        try:
            mod = self.world.event('close', self.path)
        finally:
            io.RawIOBase.close(self)
        if mod and 'close_error' in mod:
            raise OSError(mod['close_error'], 'simulated: close failed', self.path)


def outside(path):
    return ROOT + '/outside' + os.path.abspath(norm(path)).replace('/', '_')


def _flags(mode):
    base = mode.replace('b', '').replace('t', '').replace('U', '')
    plus = '+' in base
    c = base.replace('+', '')
    if c == 'r':
        f = 0
    elif c == 'w':
        f = os.O_CREAT | os.O_TRUNC
    elif c == 'a':
        f = os.O_CREAT | os.O_APPEND
    elif c == 'x':
        f = os.O_CREAT | os.O_EXCL
    else:
        raise ValueError('invalid mode: %r' % mode)
    f |= os.O_RDWR if plus else (os.O_RDONLY if c == 'r' else os.O_WRONLY)
    return f


def _clamp(f, n):
    """Requests far beyond the end of the file would only allocate memory."""
    if isinstance(n, int) and n > 1 << 24:
        raw = f.raw
        if isinstance(raw, SimRaw) and not raw._closed_sim:
            return min(n, max(0, len(raw.ino.data) - f.tell()) + (1 << 20))
    return n


def _dropped(f, base):
    """A file object goes away without having been closed."""
    try:
        raw = f
        while not isinstance(raw, SimRaw):
            raw = raw.raw if hasattr(raw, 'raw') else raw.buffer
        if not raw._closed_sim:
            raw.world.dropped.append(raw.path)
    except Exception:
        pass
    base.__del__(f)


class Reader(io.BufferedReader):
    def read(self, n=-1):
        return io.BufferedReader.read(self, _clamp(self, n))

    def __del__(self):
        _dropped(self, io.BufferedReader)


class Writer(io.BufferedWriter):
    def __del__(self):
        _dropped(self, io.BufferedWriter)


class ReaderWriter(io.BufferedRandom):
    def read(self, n=-1):
        return io.BufferedRandom.read(self, _clamp(self, n))

    def __del__(self):
        _dropped(self, io.BufferedRandom)


class Text(io.TextIOWrapper):
    def __del__(self):
        _dropped(self, io.TextIOWrapper)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    w = World.cur
    if isinstance(file, int):
        raw = w.fs.fds[file]
        if getattr(raw, 'wrapped', False):
            pass
        raw.wrapped = True
    elif opener is not None:
        fd = opener(file, _flags(mode))
        raw = w.fs.fds[fd]
    else:
        raw = SimRaw(spath(file), _flags(mode))
    raw.mode = mode
    binary = 'b' in mode
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = w.bufsize() if buffering in (-1, 1) else buffering
    if '+' in mode:
        buf = ReaderWriter(raw, size)
    elif any(c in mode for c in 'wax'):
        buf = Writer(raw, size)
    else:
        buf = Reader(raw, size)
    if binary:
        return buf
    text = Text(buf, encoding or 'utf-8', errors, newline)
    text.mode = mode
    return text


class FakeStat(object):
    pass


def _stat_result(ino=None, isdir=False, size=None):
    mode = 0o040755 if isdir else 0o100644 if ino is None else ino.mode
    n = len(ino.data) if ino is not None else 0
    ns = MTIME if ino is None else ino.mtime
    t = {'st_%stime%s' % (k, e): v for k in 'amc' for e, v in (('', ns / 1e9), ('_ns', ns))}
    uid, gid = (0, 0) if ino is None else ino.owner
    return os.stat_result((mode, ino.num if ino is not None else 999999, 4242,
                           ino.nlink if ino is not None else 1, uid, gid, n,
                           ns // 10 ** 9, ns // 10 ** 9, ns // 10 ** 9), t)


DESTRUCTIVE = ('truncate', 'rename', 'replace', 'unlink', 'remove', 'link', 'mkdir', 'rmdir',
               'chmod', 'chown', 'utime', 'symlink')
_real = {}
_installed = False


def _wrap(mod, name, sim, npaths=1):
    real = getattr(mod, name)
    _real[name] = real

    def wrapper(*args, **kw):
        if World.cur is not None and args:
            if any(is_sim(a) for a in args[:npaths]):
                return sim(*args, **kw)
            if name == 'open' and len(args) > 1 and args[1] & (os.O_WRONLY | os.O_RDWR):
                return sim(outside(args[0]), *args[1:], **kw)
            if name in DESTRUCTIVE:
                raise PermissionError(errno.EPERM, 'simulated: outside the simulation', str(args[0]))
        return real(*args, **kw)
    wrapper.__name__ = name
    wrapper.__wrapped__ = real
    setattr(mod, name, wrapper)


def _install_cwd():
    real_chdir, real_getcwd = os.chdir, os.getcwd

    def chdir(path):
        w = World.cur
        if w is None:
            return real_chdir(path)
        if isinstance(path, int) or not is_sim(path):
            p = norm(path)
            if w.fs.cwd is not None and p == real_getcwd():
                w.fs.cwd = None
                return
            raise PermissionError(errno.EPERM, 'simulated: outside the simulation', str(path))
        p = spath(path)
        w.event('stat', p)
        if w.fs.res(p) not in w.fs.dirs:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', p)
        w.fs.cwd = p

    def getcwd():
        w = World.cur
        return real_getcwd() if w is None or w.fs.cwd is None else w.fs.cwd
    os.chdir, os.getcwd = chdir, getcwd


def install():
    """Install the seams (once, before bloscpack is imported)."""
    global _installed
    if _installed:
        return
    _installed = True
    real_open = builtins.open

    def open_(file, mode='r', *args, **kw):
        if World.cur is not None:
            if is_sim(file):
                return sim_open(file, mode, *args, **kw)
            if not isinstance(file, int) and any(c in mode for c in 'wax+') and \
                    norm(file) != os.devnull:
                # nothing real is ever written: redirected, and visible in snapshots
                return sim_open(outside(file), mode, *args, **kw)
        return real_open(file, mode, *args, **kw)
    open_.__wrapped__ = real_open
    builtins.open = open_
    io.open = open_
    _io.open = open_

    import tempfile
    tempfile.tempdir = ROOT
    tempfile._name_sequence = ('t%08d' % i for i in itertools.count())

    def s_os_open(path, flags, mode=0o777, *, dir_fd=None):
        return SimRaw(spath(path), flags).fd

    def s_read(fd, n):
        raw = World.cur.fs.fds[fd]
        b = bytearray(n)
        k = raw.readinto(b)
        return bytes(b[:k])

    def s_write(fd, data):
        return World.cur.fs.fds[fd].write(data)

    def s_lseek(fd, pos, how):
        return World.cur.fs.fds[fd].seek(pos, how)

    def s_close(fd):
        raw = World.cur.fs.fds.get(fd)
        if raw is None:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        if fd != raw.fd:
            World.cur.fs.fds.pop(fd)         # one of several descriptors
        else:
            raw.close()

    def s_stat(path, *, dir_fd=None, follow_symlinks=True):
        w = World.cur
        if isinstance(path, int):
            raw = w.fs.fds.get(path)
            if raw is None:
                raise OSError(errno.EBADF, 'Bad file descriptor')
            w.event('stat', raw.path)
            return _stat_result(raw.ino)
        p = spath(path)
        w.event('stat', p)
        p = w.fs.res(p)
        if p in w.fs.dirs:
            return _stat_result(isdir=True)
        ino = w.fs.paths.get(p)
        if ino is None:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', p)
        return _stat_result(ino)

    def s_lstat(path, *, dir_fd=None):
        w = World.cur
        p = spath(path)
        if p in w.fs.links:
            w.event('stat', p)
            return os.stat_result((0o120777, 888888, 4242, 1, 0, 0, 0, 0, 0, 0))
        return s_stat(path)

    def s_fsync(fd):
        w = World.cur
        raw = w.fs.fds[fd]
        w.event('sync', raw.path)
        w.fs.record('fsync', raw.ino.num)

    def s_ftruncate(fd, n):
        World.cur.fs.fds[fd].truncate(n)

    def s_truncate(path, n):
        if isinstance(path, int):
            return s_ftruncate(path, n)
        w = World.cur
        p = spath(path)
        w.event('trunc', p, n)
        ino = w.fs.paths.get(w.fs.res(p))
        if ino is None:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', p)
        w.fs.truncate_ino(ino, n)

    def s_rename(a, b, *, src_dir_fd=None, dst_dir_fd=None):
        w = World.cur
        a, b = spath(a), spath(b)
        w.event('rename', a + '->' + b)
        fs = w.fs
        if a not in fs.paths:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', a)
        if fs.paths.get(b) is fs.paths[a]:
            return
        old = fs.paths.pop(b, None)
        if old is not None:
            old.nlink -= 1
        fs.links.pop(b, None)
        fs.paths[b] = fs.paths.pop(a)
        fs.record('rename', a, b)

    def s_unlink(p, *, dir_fd=None):
        w = World.cur
        p = spath(p)
        w.event('unlink', p)
        if p in w.fs.links:
            del w.fs.links[p]
            return
        ino = w.fs.paths.pop(p, None)
        if ino is None:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', p)
        ino.nlink -= 1
        w.fs.record('unlink', p)

    def s_link(a, b, **kw):
        w = World.cur
        a, b = spath(a), spath(b)
        w.event('link', a + '->' + b)
        if b in w.fs.paths:
            raise FileExistsError(errno.EEXIST, 'File exists', b)
        w.fs.hardlink(a, b)
        w.fs.record('link', a, b)

    def s_listdir(path='.'):
        w = World.cur
        p = spath(path)
        w.event('stat', p)
        pre = p.rstrip('/') + '/'
        names = set()
        for q in list(w.fs.paths) + list(w.fs.dirs) + list(w.fs.links):
            if q.startswith(pre):
                names.add(q[len(pre):].split('/')[0])
        return sorted(names)

    def s_access(path, mode, **kw):
        w = World.cur
        p = w.fs.res(spath(path))
        w.event('stat', p)
        return p in w.fs.paths or p in w.fs.dirs

    def s_mkdir(path, mode=0o777, *, dir_fd=None):
        w = World.cur
        p = spath(path)
        w.event('mkdir', p)
        if p in w.fs.dirs or p in w.fs.paths:
            raise FileExistsError(errno.EEXIST, 'File exists', p)
        w.fs.dirs.add(p)

    def s_rmdir(path, *, dir_fd=None):
        w = World.cur
        p = spath(path)
        w.event('unlink', p)
        w.fs.dirs.discard(p)

    def s_noop(*a, **k):
        return None

    def inode_of(path, follow=True):
        w = World.cur
        if isinstance(path, int):
            raw = w.fs.fds.get(path)
            if raw is None:
                raise OSError(errno.EBADF, 'Bad file descriptor')
            return raw.ino
        p = w.fs.res(spath(path)) if follow else spath(path)
        w.event('setattr', p)
        if p in w.fs.dirs or p in w.fs.links:
            return None
        if p not in w.fs.paths:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', p)
        return w.fs.paths[p]

    def s_chmod(path, mode, *, dir_fd=None, follow_symlinks=True):
        ino = inode_of(path, follow_symlinks)
        if ino is not None:
            ino.mode = ino.mode & ~0o7777 | mode & 0o7777

    def s_chown(path, uid, gid, *, dir_fd=None, follow_symlinks=True):
        ino = inode_of(path, follow_symlinks)
        if ino is not None:
            ino.owner = tuple(o if n == -1 else n for o, n in zip(ino.owner, (uid, gid)))

    def s_utime(path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
        ino = inode_of(path, follow_symlinks)
        if ino is not None:
            ino.mtime = int(times[1] * 10 ** 9) if times is not None else ns[1] \
                if ns is not None else MTIME + 5 * 10 ** 9

    def s_setxattr(path, name, value, flags=0, *, follow_symlinks=True):
        ino = inode_of(path, follow_symlinks)
        if ino is not None:
            ino.xattrs += ((name, bytes(value)),)

    def s_enotsock(*a, **k):
        raise OSError(errno.ENOTSOCK, 'not supported in simulation')

    def s_readlink(path, *, dir_fd=None):
        w = World.cur
        p = spath(path)
        if p in w.fs.links:
            return w.fs.links[p]
        raise OSError(errno.EINVAL, 'Invalid argument', p)

    def s_isatty(fd):
        return False

    def s_pread(fd, n, off):
        raw = World.cur.fs.fds[fd]
        old = raw.pos
        raw.pos = off
        try:
            return s_read(fd, n)
        finally:
            raw.pos = old

    def s_pwrite(fd, data, off):
        raw = World.cur.fs.fds[fd]
        old = raw.pos
        raw.pos = off
        try:
            return raw.write(data)
        finally:
            raw.pos = old

    def s_posix_fallocate(fd, off, n):
        raw = World.cur.fs.fds[fd]
        if off + n > len(raw.ino.data):
            raw.truncate(off + n)

    def s_dup(fd):
        # the two descriptors share one offset, as with dup(2)
        fs = World.cur.fs
        raw = fs.fds[fd]
        fs.fds[fs.next_fd] = raw
        fs.next_fd += 1
        return fs.next_fd - 1

    def s_readv(fd, bufs):
        n = 0
        for b in bufs:
            k = World.cur.fs.fds[fd].readinto(b)
            n += k
            if k < len(memoryview(b).cast('B')):
                break
        return n

    def s_writev(fd, bufs):
        return World.cur.fs.fds[fd].write(b''.join(bytes(b) for b in bufs))

    def s_preadv(fd, bufs, off, flags=0):
        raw = World.cur.fs.fds[fd]
        old, raw.pos = raw.pos, off
        try:
            return s_readv(fd, bufs)
        finally:
            raw.pos = old

    def s_pwritev(fd, bufs, off, flags=0):
        return s_pwrite(fd, b''.join(bytes(b) for b in bufs), off)

    def s_noxattr(*a, **k):
        return []

    def s_noattr(*a, **k):
        raise OSError(errno.ENODATA, 'No data available')

    table = [('open', s_os_open), ('read', s_read), ('write', s_write),
             ('lseek', s_lseek), ('close', s_close), ('stat', s_stat),
             ('fstat', s_stat), ('lstat', s_lstat), ('fsync', s_fsync),
             ('fdatasync', s_fsync), ('ftruncate', s_ftruncate),
             ('truncate', s_truncate), ('rename', s_rename),
             ('replace', s_rename), ('unlink', s_unlink),
             ('remove', s_unlink), ('link', s_link),
             ('listdir', s_listdir), ('access', s_access),
             ('mkdir', s_mkdir), ('rmdir', s_rmdir), ('chmod', s_chmod),
             ('fchmod', s_chmod), ('chown', s_chown), ('utime', s_utime),
             ('readlink', s_readlink), ('isatty', s_isatty),
             ('pread', s_pread), ('pwrite', s_pwrite),
             ('posix_fallocate', s_posix_fallocate),
             ('posix_fadvise', s_noop), ('sendfile', s_enotsock),
             ('copy_file_range', s_enotsock), ('dup', s_dup),
             ('readv', s_readv), ('writev', s_writev),
             ('preadv', s_preadv), ('pwritev', s_pwritev),
             ('listxattr', s_noxattr), ('getxattr', s_noattr),
             ('setxattr', s_setxattr), ('lockf', s_noop), ('fchown', s_chown)]
    for name, fn in table:
        if hasattr(os, name):
            _wrap(os, name, fn, 2 if name in ('sendfile', 'copy_file_range',
                                              'rename', 'replace', 'link') else 1)
    _install_cwd()
    _wrap(os, 'scandir', lambda path='.': ScanDir(spath(path)))
    _install_more(s_read)


class DirEntry(object):
    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)

    def __fspath__(self):
        return self.path

    def is_dir(self, follow_symlinks=True):
        return self.path in World.cur.fs.dirs

    def is_file(self, follow_symlinks=True):
        return not self.is_dir()

    def is_symlink(self):
        return self.path in World.cur.fs.links

    def is_junction(self):
        return False

    def stat(self, follow_symlinks=True):
        return os.stat(self.path)

    def inode(self):
        return self.stat().st_ino


class ScanDir(object):
    def __init__(self, path):
        self.it = iter([DirEntry(path.rstrip('/') + '/' + n)
                        for n in os.listdir(path)])

    def __iter__(self):
        return self.it

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False

    def close(self):
        pass


def _install_more(s_read):
    """Less usual ways to reach a file."""
    import fcntl
    import mmap
    import shutil
    shutil._use_fd_functions = False
    for name in ('flock', 'lockf', 'fcntl'):
        def locked(fd, *a, _real=getattr(fcntl, name), **k):
            n = fd if isinstance(fd, int) else fd.fileno()
            if World.cur is not None and n >= FD_BASE:
                return 0
            return _real(fd, *a, **k)
        setattr(fcntl, name, locked)

    real_fileio = io.FileIO

    class FileIO(real_fileio):
        def __new__(cls, file, mode='r', closefd=True, opener=None):
            if World.cur is not None:
                if is_sim(file) or opener is not None:
                    return sim_open(file, mode + 'b', 0, opener=opener)
                if not isinstance(file, int) and any(c in mode for c in 'wax+'):
                    return sim_open(outside(file), mode + 'b', 0)
            return real_fileio.__new__(cls, file, mode, closefd, opener)
    io.FileIO = FileIO

    real_mmap = mmap.mmap

    class SimMmap(real_mmap):
        """Anonymous memory with the file's content, written back on flush."""
        _ino = None

        def __new__(cls, fileno, length, *a, **k):
            w = World.cur
            if w is None or fileno < FD_BASE:
                return real_mmap.__new__(cls, fileno, length, *a, **k)
            raw = w.fs.fds[fileno]
            off = k.get('offset', 0)
            if not length:
                length = len(raw.ino.data) - off
            if length <= 0:
                raise ValueError('cannot mmap an empty file')
            w.event('read', raw.path, off, length)
            obj = real_mmap.__new__(cls, -1, length)
            obj.write(bytes(raw.ino.data[off:off + length]))
            obj.seek(0)
            access = k.get('access', a[3] if len(a) > 3 else 0)
            obj._ro = access in (mmap.ACCESS_READ, mmap.ACCESS_COPY) or not raw._w
            obj._ino, obj._off, obj._world, obj._path = raw.ino, off, w, raw.path
            return obj

        def flush(self, *a):
            if self._ino is None:
                return real_mmap.flush(self, *a)
            if not self._ro:
                b = self[:]
                self._world.event('write', self._path, self._off, len(b))
                self._ino.data[self._off:self._off + len(b)] = b
                self._world.fs.record('write', self._ino.num, self._off, b)

        def close(self):
            if self._ino is not None and not self.closed:
                self.flush()
            real_mmap.close(self)

        def __exit__(self, *exc):
            self.close()
    mmap.mmap = SimMmap


# ---------------------------------------------------------------------------
# crash images

SECTOR = 512


def apply_log(base, log):
    """Replay mutation records onto {path: bytes}; returns new dict.

    base: (paths: path->inode number, contents: inode number -> bytes)
    """
    paths = dict(base[0])
    data = {k: bytearray(v) for k, v in base[1].items()}
    for rec in log:
        _apply(paths, data, rec)
    return {p: bytes(data[i]) for p, i in paths.items()}


def _apply(paths, data, rec):
    op = rec[0]
    if op == 'create':
        paths[rec[1]] = rec[2]
        data.setdefault(rec[2], bytearray())
    elif op == 'write':
        d = data[rec[1]]
        off, b = rec[2], rec[3]
        if off > len(d):
            d.extend(b'\0' * (off - len(d)))
        d[off:off + len(b)] = b
    elif op == 'trunc':
        d = data[rec[1]]
        n = rec[2]
        if n < len(d):
            del d[n:]
        else:
            d.extend(b'\0' * (n - len(d)))
    elif op == 'rename':
        paths[rec[2]] = paths.pop(rec[1])
    elif op == 'unlink':
        paths.pop(rec[1], None)
    elif op == 'link':
        paths[rec[2]] = paths[rec[1]]


def base_of(fs):
    return ({p: i.num for p, i in fs.paths.items()},
            {i.num: bytes(i.data) for i in fs.paths.values()})


def tear_points(rec):
    """Sector boundaries strictly inside a write record (byte counts kept)."""
    if rec[0] != 'write':
        return []
    off, n = rec[2], len(rec[3])
    first = (off // SECTOR + 1) * SECTOR
    return [p - off for p in range(first, off + n, SECTOR)]


class CrashImages(object):
    """Incremental builder of process-crash images of a recorded log."""

    def __init__(self, base, log):
        self.base = base
        self.log = log

    def points(self):
        """All crash points: (i, t): first i records applied, then t bytes of
        record i (t=0: none)."""
        for i in range(len(self.log) + 1):
            yield (i, 0)
            if i < len(self.log):
                for t in tear_points(self.log[i]):
                    yield (i, t)

    def image(self, i, t):
        log = list(self.log[:i])
        if t:
            r = self.log[i]
            log.append(('write', r[1], r[2], r[3][:t]))
        return apply_log(self.base, log)

    def power_loss(self, i, t, rng, p_lost):
        """Image after losing random unsynced sectors of the first i records.

        Sectors written after the last fsync of their inode may be lost
        individually (old content, or zero where the file was extended).  File
        length and directory entries survive.
        """
        log = list(self.log[:i])
        if t:
            r = self.log[i]
            log.append(('write', r[1], r[2], r[3][:t]))
        synced = {}
        for j, rec in enumerate(log):
            if rec[0] == 'fsync':
                synced[rec[1]] = j
        # how many of the writes touching each sector reached the medium: a
        # sector is persisted as it was after some prefix of its writes
        total = {}
        for j, rec in enumerate(log):
            if rec[0] == 'write' and j > synced.get(rec[1], -1):
                off, n = rec[2], len(rec[3])
                for s in range(off // SECTOR, (off + n - 1) // SECTOR + 1):
                    total[(rec[1], s)] = total.get((rec[1], s), 0) + 1
        keep = {}
        lost = 0
        for key in sorted(total):
            k = total[key]
            if rng.random() < p_lost:
                k = rng.randrange(0, k)
                lost += 1
            keep[key] = k
        seen = {}
        paths = dict(self.base[0])
        data = {k: bytearray(v) for k, v in self.base[1].items()}
        for j, rec in enumerate(log):
            if rec[0] == 'write' and j > synced.get(rec[1], -1):
                d = data[rec[1]]
                off, b = rec[2], rec[3]
                if off + len(b) > len(d):
                    d.extend(b'\0' * (off + len(b) - len(d)))
                p = off
                while p < off + len(b):
                    s = p // SECTOR
                    e = min((s + 1) * SECTOR, off + len(b))
                    key = (rec[1], s)
                    seen[key] = seen.get(key, 0) + 1
                    if seen[key] <= keep[key]:
                        d[p:e] = b[p - off:e - off]
                    p = e
            else:
                _apply(paths, data, rec)
        return {p: bytes(data[i]) for p, i in paths.items()}, lost
