"""File-system seam: every open/list below the scratch root goes through here.

The files are real files in a scratch directory (so code that reaches the disk some other way still works and is still
judged by what ends up there); transfer sizes, buffer sizes, faults, crash points and listing order belong to the
simulator.
"""
import builtins
import codecs
import errno
import io
import os
import pathlib
import random
import shutil
import stat
import tempfile
from . import core
from .core import SimCrash

_real_open = io.open
_real_listdir = os.listdir
_real_scandir = os.scandir
_real_stat = os.stat
_real_lstat = os.lstat
_real_utime = os.utime
_real_os_open = os.open
_real_os_read = os.read
_real_os_write = os.write
_real_os_close = os.close

ACTIVE = None
FLAGS = {'r': (os.O_RDONLY, os.O_RDWR), 'w': (os.O_WRONLY | os.O_CREAT | os.O_TRUNC, os.O_RDWR | os.O_CREAT | os.O_TRUNC),
         'a': (os.O_WRONLY | os.O_CREAT | os.O_APPEND, os.O_RDWR | os.O_CREAT | os.O_APPEND),
         'x': (os.O_WRONLY | os.O_CREAT | os.O_EXCL, os.O_RDWR | os.O_CREAT | os.O_EXCL)}


class SimRaw(io.RawIOBase):
    def __init__(self, fs, path, mode, fd=None, closefd=True):
        io.RawIOBase.__init__(self)
        self._fs = fs
        self._path = path
        self._rel = fs.rel(path)
        self._m = mode
        self._keep = not closefd
        self._real = io.FileIO(path, mode) if fd is None else io.FileIO(fd, mode.replace('x', 'w'), closefd)
        self.name = path if fd is None else fd
        self.mode = self._real.mode
        self._dead = False
        self._nread = 0
        self._reads = 0
        self._written = 0
        self._writes = 0
        fs.handles.append(self)
        fs.opened += 1

    def readable(self):
        return self._real.readable()

    def writable(self):
        return self._real.writable()

    def seekable(self):
        return True

    def fileno(self):
        return self._real.fileno()

    def isatty(self):
        return False

    def tell(self):
        return self._real.tell()

    def seek(self, pos, whence=0):
        return self._real.seek(pos, whence)

    def truncate(self, size=None):
        if self._dead:
            return 0
        return self._real.truncate(size)

    def readinto(self, b):
        fs = self._fs
        fs.io_point()
        self._reads += 1
        want = len(b)
        for f in fs.faults_for(self._rel, 'read'):
            if self._nread >= f['at'] or self._reads > f.get('calls', 1 << 30):
                fs.fire(f)
                fs.interrupt(f)
                raise OSError(f.get('errno', errno.EIO), os.strerror(f.get('errno', errno.EIO)), self._path)
            want = min(want, max(1, f['at'] - self._nread))
        if fs.chunk and want > 1:
            n = fs.draw_chunk(self._reads)
            if n < want:
                want = n
                fs.count('short_read')
        data = self._real.read(want)
        n = len(data)
        b[:n] = data
        self._nread += n
        return n

    def write(self, b):
        fs = self._fs
        data = bytes(b)
        if self._dead:
            return len(data)
        fs.io_point()
        self._writes += 1
        n = len(data)
        for f in fs.faults_for(self._rel, 'write'):
            room = f['at'] - self._written
            if room <= 0:
                fs.fire(f)
                if f['kind'] == 'crash':
                    fs.die()
                    raise SimCrash('injected')
                fs.interrupt(f)
                raise OSError(f.get('errno', errno.ENOSPC), os.strerror(f.get('errno', errno.ENOSPC)), self._path)
            n = min(n, room)
        if fs.chunk and n > 1:
            k = fs.draw_chunk(self._writes)
            if k < n:
                n = k
                fs.count('short_write')
        self._real.write(data[:n])
        self._written += n
        return n

    def close(self):
        if self.closed:
            return
        try:
            io.RawIOBase.close(self)
        finally:
            if self.writable_mode() and not self._dead:
                self._fs.stamp(self._real.fileno())
            if not self._keep:
                self._fs.forget(self._real.fileno())
            self._real.close()
            if self in self._fs.handles:
                self._fs.handles.remove(self)
        if not self._dead:
            for f in self._fs.faults_for(self._rel, 'close'):
                if f.get('mode', 'w') == ('w' if self.writable_mode() else 'r'):
                    self._fs.fire(f)
                    raise OSError(errno.EIO, os.strerror(errno.EIO), self._path)

    def writable_mode(self):
        return any(c in self._m for c in 'wax+')


class SimFS(object):
    def __init__(self):
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
        self.root = tempfile.mkdtemp(prefix='segeval-sim-', dir=base)
        self.handles = []
        self.scans = []
        self.fds = {}           # descriptors opened with os.open: path, or the raw file that does the transfers
        self.faults = {}
        self.chunk = None
        self.bufsizes = None
        self.listing_rng = None
        self.opened = 0
        self.dead = False

    def destroy(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def rel(self, path):
        return os.path.relpath(path, self.root)

    def path(self, rel):
        return os.path.join(self.root, rel) if rel not in ('', '.') else self.root

    def reset(self, conf):
        """conf: chunk (max transfer size or None), buf (list of buffer sizes or None), seed."""
        for h in list(self.handles):
            h._dead = True
            try:
                h._real.close()
            except OSError:
                pass
        self.handles = []
        for fd in list(self.fds):
            self.forget(fd)
            try:
                _real_os_close(fd)
            except OSError:
                pass
        self.fds = {}
        for scan in list(self.scans):
            scan.close()
        core.CURRENT = None
        for name in _real_listdir(self.root):
            p = os.path.join(self.root, name)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.remove(p)
        self.faults = {}
        self.chunk = conf.get('chunk')
        self.bufsizes = conf.get('buf')
        self.rng = random.Random('fs:%s' % (conf.get('seed', 0),))
        self.listing_rng = random.Random('ls:%s' % (conf.get('seed', 0),)) if conf.get('listing', 'shuffle') == 'shuffle' else None
        self.reverse = conf.get('listing') == 'reverse'
        self.locale = conf.get('locale', 'utf-8')
        self.tick = conf.get('tick', 1)         # granularity of file times in seconds
        self.skew = conf.get('skew', 0)
        self.dead = False
        self.opened = 0

    # -- faults
    def arm(self, task, faults):
        self.faults[task] = [dict(f, fired=0) for f in faults]

    def disarm(self, task):
        return [f for f in self.faults.pop(task, ()) if f['fired']]

    def faults_for(self, rel, site):
        sim = core.CURRENT
        if sim is None or sim.current is None:
            return
        for f in self.faults.get(sim.current.idx, ()):
            if f['site'] == site and f.get('path') in (None, rel) and not (f.get('once') and f['fired']):
                yield f

    def fire(self, f):
        f['fired'] += 1
        self.count('fault:%s:%s' % (f['site'], f.get('kind', 'error')))

    @staticmethod
    def interrupt(f):
        """The call is interrupted while it waits for the operating system."""
        if 'exc' in f:
            raise getattr(builtins, f['exc'])('injected')

    def die(self):
        self.dead = True
        for h in self.handles:
            h._dead = True

    # -- simulator hooks
    def count(self, what):
        if core.CURRENT is not None:
            core.CURRENT.count(what)

    def io_point(self):
        sim = core.CURRENT
        if sim is not None and sim.current is not None:
            sim.step(sim.current, 'io')

    def draw_chunk(self, transfers):
        # transfers grow geometrically once a handle has seen many, so that a run costs a bounded number of them
        return 1 + self.rng.randrange(self.chunk << min(40, transfers // 200))

    def stamp(self, target):
        """File times come from the simulated clock: coarse, and set back or forward between two writes."""
        sim = core.CURRENT
        t = sim.now() if sim is not None else 1.0e9
        if self.skew:
            t += self.rng.choice([0, 0, self.skew, -self.skew])
        t = t // self.tick * self.tick
        try:
            _real_utime(target, (t, t))
        except (OSError, TypeError, ValueError):
            pass

    def under(self, path):
        try:
            path = os.fspath(path)
        except TypeError:
            return None
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        path = os.path.abspath(path)
        if path == self.root or path.startswith(self.root + os.sep):
            return path
        return None

    def before_open(self, path, writes):
        self.io_point()
        for f in self.faults_for(self.rel(path), 'open'):
            if f.get('vanish'):
                if real_kind(path):
                    _real_remove(path)
                    self.fire(f)
                continue
            self.fire(f)
            raise OSError(f['errno'], os.strerror(f['errno']), path)
        if self.dead and writes:
            raise SimCrash('dead')

    # -- descriptors
    def os_open(self, path, flags, mode=0o777, dir_fd=None):
        p = self.under(path) if dir_fd is None else None
        if p is None or core.CURRENT is None:
            return _real_os_open(path, flags, mode, dir_fd=dir_fd)
        writes = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        if real_kind(p) == 'dir':
            fd = _real_os_open(path, flags, mode)
            self.fds[fd] = p
            return fd
        self.before_open(p, writes)
        fd = _real_os_open(path, flags, mode)
        self.fds[fd] = SimRaw(self, p, 'r+' if flags & os.O_RDWR else 'w' if flags & os.O_WRONLY else 'r', fd, False)
        self.handles.remove(self.fds[fd])
        return fd

    def forget(self, fd):
        raw = self.fds.pop(fd, None)
        if isinstance(raw, SimRaw):
            raw._dead = True        # (so that its finaliser touches nothing)

    def os_read(self, fd, n):
        raw = self.fds.get(fd)
        if not isinstance(raw, SimRaw):
            return _real_os_read(fd, n)
        b = bytearray(n)
        return bytes(b[:raw.readinto(b)])

    def os_write(self, fd, data):
        raw = self.fds.get(fd)
        if not isinstance(raw, SimRaw):
            return _real_os_write(fd, data)
        if self.dead:
            raise SimCrash('dead')
        return raw.write(data)

    def os_close(self, fd):
        raw = self.fds.pop(fd, None)
        if isinstance(raw, SimRaw):
            if self.dead:
                raw._dead = True
            try:
                raw.close()
            finally:
                _real_os_close(fd)
        else:
            _real_os_close(fd)

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        fd = file if isinstance(file, int) and file in self.fds else None
        path = self.under(file) if not isinstance(file, int) else None if fd is None else self.fds[fd]._path
        if path is None:
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        mode = mode.replace('U', '')
        if not any(c in mode for c in 'rwax'):
            mode = 'r' + mode
        binary = 'b' in mode
        raw_mode = mode.replace('b', '').replace('t', '')
        if fd is None:
            self.before_open(path, any(c in mode for c in 'wax+'))
            if real_kind(path) == 'dir':
                raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
            if opener is not None:
                fd, closefd = opener(file, FLAGS[raw_mode.replace('+', '')[:1]][('+' in raw_mode)] | os.O_CLOEXEC), True
                self.forget(fd)
        raw = SimRaw(self, path, raw_mode, fd, closefd)
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
        if self.bufsizes:
            size = self.bufsizes[self.rng.randrange(len(self.bufsizes))]
        if '+' in raw_mode:
            buf = io.BufferedRandom(raw, size)
        elif 'r' in raw_mode:
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if binary:
            return buf
        if encoding is None or encoding == 'locale':
            encoding = self.locale      # what the simulated machine's locale would give
        text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=(buffering == 1))
        text.mode = mode
        return text

    def _list_faults(self, path):
        self.io_point()
        for f in self.faults_for(self.rel(path), 'list'):
            if f.get('kind') == 'vanish':
                continue
            self.fire(f)
            raise OSError(f['errno'], os.strerror(f['errno']), path)

    def _listed(self, path):
        """Entries that go away right after they were listed."""
        for f in self.faults_for(self.rel(path), 'list'):
            victim = self.path(f['victim'])
            kind = real_kind(victim)
            if kind == 'dir':
                shutil.rmtree(victim)
            elif kind:
                _real_remove(victim)
            if kind:
                self.fire(f)

    def order(self, names):
        names = sorted(names)
        if self.listing_rng is not None:
            self.listing_rng.shuffle(names)
        elif self.reverse:
            names.reverse()
        return names

    def listdir(self, path='.'):
        p = self.under(path) if not isinstance(path, int) else self.fds.get(path)
        if not isinstance(p, str) or isinstance(path, bytes):
            return _real_listdir(path)
        self._list_faults(p)
        self.count('listing')
        names = self.order(_real_listdir(p))
        self._listed(p)
        return names

    def scandir(self, path='.'):
        p = self.under(path) if not isinstance(path, int) else self.fds.get(path)
        if not isinstance(p, str):
            return _real_scandir(path)
        self._list_faults(p)
        self.count('listing')
        with _real_scandir(path) as it:
            entries = dict((e.name, e) for e in it)
        fd = _real_os_open(p, os.O_RDONLY)
        try:
            self._listed(p)
        except BaseException:
            _real_os_close(fd)
            raise
        scan = _Scan(self, [entries[n] for n in self.order(entries)], fd)
        self.scans.append(scan)
        return scan

    # -- what is really open
    def open_files(self):
        """Paths under the root that the process holds open, by whatever route they were opened."""
        out = []
        try:
            fds = _real_listdir('/proc/self/fd')
        except OSError:
            return [self.rel(h._path) for h in self.handles]
        for fd in fds:
            try:
                target = os.readlink('/proc/self/fd/' + fd)
            except OSError:
                continue
            if target.startswith(self.root + os.sep):
                out.append(os.path.relpath(target.replace(' (deleted)', ''), self.root))
        return sorted(out)


_real_remove = os.remove


def real_kind(path):
    try:
        mode = _real_stat(path).st_mode
    except OSError:
        return None
    return 'dir' if stat.S_ISDIR(mode) else 'file'


class _Scan(object):
    """Holds the directory open until exhausted or closed, as the real thing does."""

    def __init__(self, fs, entries, fd):
        self._fs, self._it, self._fd = fs, iter(entries), fd

    def __iter__(self):
        return self

    def __next__(self):
        try:
            if self._fd is None:
                raise StopIteration
            return next(self._it)
        except StopIteration:
            self.close()
            raise

    def close(self):
        fd, self._fd = self._fd, None
        if fd is not None:
            _real_os_close(fd)
            if self in self._fs.scans:
                self._fs.scans.remove(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def install(fs):
    """Put the seam in place (once per worker)."""
    global ACTIVE
    ACTIVE = fs

    def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        return ACTIVE.open(file, mode, buffering, encoding, errors, newline, closefd, opener)

    def sim_listdir(path='.'):
        return ACTIVE.listdir(path)

    def sim_scandir(path='.'):
        return ACTIVE.scandir(path)

    acc = getattr(pathlib, '_NormalAccessor', None)

    def put(name, call):
        setattr(os, name, call)
        # (pathlib keeps its own references)
        for holder in (acc, getattr(pathlib, '_normal_accessor', None)):
            if name in vars(holder or object):
                setattr(holder, name, staticmethod(call) if holder is acc else call)

    def guarded(name):
        real = getattr(os, name)

        def call(path, *args, **kwargs):
            p = None if isinstance(path, int) else ACTIVE.under(path)
            if p is None and args and name in ('rename', 'replace', 'link'):
                p = ACTIVE.under(args[0])
            if p is not None and core.CURRENT is not None:
                ACTIVE.io_point()
                if ACTIVE.dead:
                    raise SimCrash('dead')
                for f in ACTIVE.faults_for(ACTIVE.rel(p), 'meta'):
                    ACTIVE.fire(f)
                    raise OSError(f.get('errno', errno.EIO), os.strerror(f.get('errno', errno.EIO)), p)
            return real(path, *args, **kwargs)
        put(name, call)
    for name in ('rename', 'replace', 'remove', 'unlink', 'link', 'truncate'):
        guarded(name)

    def stats(name):
        real = getattr(os, name)

        def call(path, *args, **kwargs):
            if core.CURRENT is not None and ACTIVE.faults:
                p = None if isinstance(path, int) else ACTIVE.under(path)
                if p is not None:
                    for f in ACTIVE.faults_for(ACTIVE.rel(p), 'stat'):
                        if f.get('kind') == 'vanish':
                            f['seen'] = f.get('seen', 0) + 1
                            if f['seen'] == f['calls'] and real_kind(p) == 'file':
                                answer = real(path, *args, **kwargs)
                                ACTIVE.fire(f)
                                _real_remove(p)     # gone between the question and whatever comes next
                                return answer
                            continue
                        ACTIVE.fire(f)
                        raise OSError(f['errno'], os.strerror(f['errno']), p)
            return real(path, *args, **kwargs)
        put(name, call)
    stats('stat')
    stats('lstat')
    # descriptor level: transfers, faults and crash points are those of a file of the same path
    put('open', lambda path, flags, mode=0o777, *, dir_fd=None: ACTIVE.os_open(path, flags, mode, dir_fd))
    put('read', lambda fd, n: ACTIVE.os_read(fd, n))
    put('write', lambda fd, data: ACTIVE.os_write(fd, data))
    put('close', lambda fd: ACTIVE.os_close(fd))
    if hasattr(os, 'sendfile'):
        shutil._USE_CP_SENDFILE = False
    builtins.open = sim_open
    io.open = sim_open
    if getattr(codecs, 'builtins', None) is not None:
        assert codecs.builtins is builtins
    put('listdir', sim_listdir)
    put('scandir', sim_scandir)
