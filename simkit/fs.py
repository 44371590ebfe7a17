"""Simulated I/O on the scratch tree: every operation is a scheduling point and a fault or crash site.

Real files below the scratch root carry the data (what survives a simulated crash is what reached them); Python buffers
belong to the simulated process and die with it.  Paths outside the scratch root are never touched through this layer.
"""
import builtins
import io
import os
import shutil
import sys
import weakref

from . import sim as S
from . import image as _image
from .sched import current_task, SimExit

_open = builtins.open
_FileIO = io.FileIO
R = {}               # real functions
LIVE = weakref.WeakSet()
FDS = {}             # raw descriptors opened inside a simulation


def root():
    from . import boot
    return boot.ROOT


def _path(p):
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    a = os.path.abspath(p)
    r = root()
    if r is None or not (a == r or a.startswith(r + os.sep)):
        return None
    return a


def _inside(p):
    if isinstance(p, int):
        return p in FDS
    return _path(p) is not None


def _crash(s):
    s.count('crashes')
    s.kill_proc(current_task().proc)


def op(site, nbytes=None):
    """One file system operation of the running task; returns the fault that the caller has to carry out, if any."""
    s = S.here()
    if s is None:
        return None
    s.sched.point(site)
    s.count(site)
    f = s.faults.hit(site)
    if f is None:
        return None
    k = f['kind']
    if k == 'crash':
        _crash(s)
    if k in ('short', 'partial', 'crash-mid', 'crash-after'):
        return k
    if site == 'fs.write' and k in ('ENOSPC', 'EIO', 'EDQUOT'):
        return k
    raise S.make_error(k)


class SimRaw(io.RawIOBase):
    """Unbuffered file of the simulated machine."""

    def __init__(self, path, mode, fd=None, opener=None):
        self._sim = S.ACTIVE
        self._over = False
        if fd is not None:
            self._f = _FileIO(fd, mode, closefd=True)
        elif opener is not None:
            self._f = _FileIO(path, mode, opener=opener)
        else:
            self._f = _FileIO(path, mode)
        self.name = path
        self.mode = self._f.mode
        self.proc = current_task().proc if current_task() else None
        LIVE.add(self)

    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return self._f.seekable()

    def fileno(self):
        return self._f.fileno()

    def tell(self):
        return self._f.tell()

    def seek(self, pos, whence=0):
        return self._f.seek(pos, whence)

    def isatty(self):
        return False

    def truncate(self, size=None):
        if self._gone():
            return 0
        op('fs.truncate')
        return self._f.truncate(size)

    def _gone(self):
        return self._sim is not S.ACTIVE or self._sim is None or self._sim.frozen

    def readinto(self, b):
        if not self._gone():
            k = op('fs.read')
            if k == 'short' and len(b) > 1:
                return self._f.readinto(memoryview(b)[:max(1, len(b) // 2)])
        return self._f.readinto(b)

    def readall(self):
        out = []
        while True:
            b = bytearray(65536)
            n = self.readinto(b)
            if not n:
                return b''.join(out)
            out.append(bytes(b[:n]))

    def write(self, b):
        b = memoryview(b).cast('B')
        n = len(b)
        if self._gone():
            return n
        s = self._sim
        k = op('fs.write')
        if k is None:
            cap = s.env.get('disk_left')
            if cap is not None:
                if n > cap:
                    if cap > 0:
                        self._f.write(b[:cap])
                        s.env['disk_left'] = 0
                        return cap
                    s.count('disk_full')
                    raise S.make_error('ENOSPC')
                s.env['disk_left'] = cap - n
            return self._f.write(b)
        if k == 'short':
            return self._f.write(b[:max(1, n // 2)])
        if k in ('ENOSPC', 'EIO'):
            self._f.write(b[:n // 2])
            raise S.make_error(k)
        if k == 'crash-mid':
            self._f.write(b[:n // 2])
            _crash(s)
        if k == 'crash-after':
            self._f.write(b)
            _crash(s)
        return self._f.write(b)

    def close(self):
        if self.closed:
            return
        try:
            if not self._gone() and current_task() is not None and not self._over:
                self._over = True
                try:
                    op('fs.close')
                except SimExit:
                    pass
        finally:
            self._f.close()
            io.RawIOBase.close(self)

    def __del__(self):
        # the finaliser is no scheduling point
        self._over = True
        try:
            self._f.close()
        except Exception:
            pass


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    s = S.here()
    if s is None or not _inside(file):
        if s is not None and isinstance(file, int) is False and opener is not None and _path(file) is None:
            pass
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    op('fs.open.w' if set(mode) & set('wax+') else 'fs.open')
    raw_mode = ''.join(c for c in mode if c in 'rwax+')
    if isinstance(file, int):
        FDS.pop(file, None)
        raw = SimRaw(file, raw_mode, fd=file)
    else:
        if opener is not None:
            def op2(p, flags):
                fd = opener(p, flags)
                FDS.pop(fd, None)
                return fd
            raw = SimRaw(file, raw_mode, opener=op2)
        else:
            raw = SimRaw(file, raw_mode)
    binary = 'b' in mode
    if buffering == 0:
        return raw
    if '+' in mode:
        buf = io.BufferedRandom(raw, 8192)
    elif raw.writable():
        buf = io.BufferedWriter(raw, 8192)
    else:
        buf = io.BufferedReader(raw, 8192)
    if binary:
        return buf
    if encoding is None:
        encoding = s.env.get('encoding')
    t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    t.mode = mode
    return t


def _wrap2(name, site):
    real = R[name]

    def f(src, dst, *a, **k):
        s = S.here()
        if s is None or not (_inside(src) or _inside(dst)):
            return real(src, dst, *a, **k)
        if s.frozen:
            raise SimExit()
        r = op(site)
        v = real(src, dst, *a, **k)
        if r in ('crash-after', 'crash-mid'):
            _crash(s)
        return v
    f.__name__ = name
    return f


def _wrap1(name, site):
    real = R[name]

    def f(path, *a, **k):
        s = S.here()
        if s is None or not (k.get('dir_fd') is not None or _inside(path)):
            return real(path, *a, **k)
        if s.frozen:
            raise SimExit()
        r = op(site)
        v = real(path, *a, **k)
        if r in ('crash-after', 'crash-mid'):
            _crash(s)
        return v
    f.__name__ = name
    return f


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    s = S.here()
    if s is None or not (dir_fd is not None or _inside(path)):
        return R['open'](path, flags, mode, dir_fd=dir_fd)
    op('fs.open.w' if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) else 'fs.opendir')
    fd = R['open'](path, flags, mode, dir_fd=dir_fd)
    if flags & (os.O_WRONLY | os.O_RDWR):
        FDS[fd] = path
    return fd


def _os_write(fd, data):
    s = S.here()
    if s is None or fd not in FDS:
        return R['write'](fd, data)
    k = op('fs.write')
    if k in ('short',):
        return R['write'](fd, data[:max(1, len(data) // 2)])
    if k in ('ENOSPC', 'EIO', 'crash-mid'):
        R['write'](fd, data[:len(data) // 2])
        if k == 'crash-mid':
            _crash(s)
        raise S.make_error(k)
    n = R['write'](fd, data)
    if k == 'crash-after':
        _crash(s)
    return n


def _os_close(fd):
    FDS.pop(fd, None)
    return R['close'](fd)


def _stat_point(name):
    real = R[name]

    def f(path, *a, **k):
        s = S.here()
        if s is not None and not s.sched.stopping and not isinstance(path, int) and k.get('dir_fd') is None \
                and _inside(path):
            s.sched.point('fs.stat')
        return real(path, *a, **k)
    f.__name__ = name
    return f


# ------------------------------------------------------------------ soundfile
class SndFile:
    """File object given to libsndfile; errors become short counts, as inside the C library."""

    def __init__(self, path, mode):
        self.raw = SimRaw(path, {'r': 'r', 'w': 'w+', 'x': 'x+', 'r+': 'r+'}.get(mode, 'r+'))
        self.name = os.fspath(path)
        if isinstance(self.name, bytes):
            self.name = os.fsdecode(self.name)
        self.exit = None
        self.failed = False
        self.wfail = False
        self.size = os.fstat(self.raw._f.fileno()).st_size

    def _safe(self, f, bad):
        try:
            return f()
        except SimExit as e:
            self.exit = e
            self.failed = True
            return bad
        except Exception:
            self.failed = True
            return bad

    def seek(self, off, whence=0):
        return self._safe(lambda: self.raw.seek(off, whence), -1)

    def tell(self):
        return self._safe(self.raw.tell, -1)

    def read(self, n=-1):
        def go():
            if n < 0:
                return self.raw.readall()
            out = b''
            while len(out) < n:
                b = bytearray(n - len(out))
                k = self.raw.readinto(b)
                if not k:
                    break
                out += bytes(b[:k])
            return out
        return self._safe(go, b'')

    def readinto(self, buf):
        def go():
            m = memoryview(buf).cast('B')
            n = 0
            while n < len(m):
                k = self.raw.readinto(m[n:])
                if not k:
                    break
                n += k
            return n
        return self._safe(go, 0)

    def write(self, data):
        data = bytes(data)

        def go():
            # overwriting existing blocks (header update) needs no space; a failing device keeps failing
            if self.raw.tell() + len(data) <= self.size:
                return self.raw._f.write(data) if not self.raw._gone() else len(data)
            if self.wfail:
                return 0
            n = 0
            try:
                while n < len(data):
                    n += self.raw.write(data[n:])
            except OSError:
                self.wfail = True
                raise
            finally:
                self.size = max(self.size, self.raw._f.tell())
            return n
        return self._safe(go, 0)

    def flush(self):
        pass

    def close(self):
        self.raw.close()


def _install_soundfile():
    import soundfile as sf
    Real = sf.SoundFile

    class SoundFile(Real):
        _simfile = None

        def __init__(self, file, mode='r', *a, **k):
            s = S.here()
            if s is None or not isinstance(file, (str, bytes, os.PathLike)) or not _inside(file):
                Real.__init__(self, file, mode, *a, **k)
                return
            m = mode if mode is not None else getattr(file, 'mode', None)
            prefix = 'Error opening {0!r}: '.format(os.fspath(file))
            if mode not in ('r', 'r+', 'w', 'w+', 'x', 'x+'):
                Real.__init__(self, file, mode, *a, **k)
                return
            if mode in ('x', 'x+') and os.path.exists(file):
                raise OSError('File exists: {0!r}'.format(file))
            if set(mode) & set('wx'):
                # argument errors are detected before the file is created or truncated
                import io as _io

                class _Named(_io.BytesIO):
                    name = os.fsdecode(os.fspath(file))
                probe = Real.__new__(Real)
                try:
                    Real.__init__(probe, _Named(), mode, *a, **k)
                    probe.close()
                except SimExit:
                    raise
                except Exception as e:
                    raise
            try:
                op('fs.open.w' if set(mode) & set('wx+') else 'fs.open')
                f = SndFile(file, mode.replace('+', '') if mode != 'r+' else 'r+')
            except OSError:
                raise sf.LibsndfileError(2, prefix) from None
            self._simfile = f
            t = current_task()
            t.nopreempt += 1             # libsndfile opens one file at a time
            try:
                try:
                    Real.__init__(self, f, mode, *a, **k)
                finally:
                    t.nopreempt -= 1
            except BaseException:
                f.close()
                if f.exit is not None:
                    raise SimExit()
                raise
            if f.exit is not None:
                raise SimExit()
            if f.wfail:                  # psf->error is set by the failing header write
                Real.close(self)
                f.close()
                raise sf.LibsndfileError(2, prefix)
            self._name = os.fspath(file)

        def _cdata_io(self, *a, **k):
            try:
                return Real._cdata_io(self, *a, **k)
            finally:
                if self._simfile is not None and self._simfile.exit is not None:
                    raise SimExit()

        def close(self):
            f = self._simfile
            try:
                Real.close(self)
            finally:
                if f is not None:
                    f.raw.close()
                    if f.exit is not None and S.here() is not None:
                        raise SimExit()
    SoundFile.__module__ = 'soundfile'
    sf.SoundFile = SoundFile


# ------------------------------------------------------------------ h5py
def _install_h5py():
    import h5py
    Real = h5py.File

    class H5Raw(SimRaw):
        def readinto(self, b):
            # the HDF5 file driver repeats short reads
            m = memoryview(b).cast('B')
            n = 0
            while n < len(m):
                k = SimRaw.readinto(self, m[n:])
                if not k:
                    break
                n += k
            return n

        def flush(self):
            pass

    class File(Real):
        def __init__(self, name, mode='r', *a, **k):
            s = S.here()
            if s is None or not isinstance(name, (str, bytes, os.PathLike)) or not _inside(name):
                Real.__init__(self, name, mode, *a, **k)
                return
            op('fs.open.w' if mode != 'r' else 'fs.open')
            pm = {'r': 'r', 'r+': 'r+', 'w': 'w+', 'a': 'r+', 'w-': 'x+', 'x': 'x+'}[mode]
            raw = H5Raw(name, pm)
            self._simraw = weakref.ref(raw)
            try:
                Real.__init__(self, raw, mode, *a, **k)
            except BaseException:
                raw.close()
                raise

        def close(self):
            r = getattr(self, '_simraw', None)
            Real.close(self)
            if r is not None:
                raw = r()
                if raw is not None:
                    raw.close()
    File.__module__ = 'h5py'
    File.__qualname__ = 'File'
    h5py.File = File


_real_urandom = os.urandom
_real_getpid = os.getpid


def _urandom(n):
    s = S.here()
    if s is None:
        return _real_urandom(n)
    return bytes(s.rng.getrandbits(8) for _ in range(n))


def _getpid():
    s = S.here()
    if s is not None:
        n = sys._getframe(1).f_globals.get('__name__', '')
        if n == _image.PKG or n.startswith(_image.PKG + '.'):
            return current_task().proc.pid
    return _real_getpid()


def open_handles():
    """Files of the simulated machine that are open now."""
    return sorted(str(r.name) for r in list(LIVE) if not r.closed and not r._f.closed and r._sim is S.ACTIVE)


def scratch():
    """Empty directory of this execution."""
    d = os.path.join(root(), 'run')
    return d


def reset():
    d = os.path.join(root(), 'run')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    h = os.path.join(root(), 'checkout', 'data', 'HRIRs')
    if os.path.lexists(h):
        shutil.rmtree(h, ignore_errors=True)
    FDS.clear()
    os.environ['HOME'] = d


def install():
    for n in ('replace', 'rename', 'remove', 'unlink', 'mkdir', 'rmdir', 'open', 'write', 'close', 'stat', 'lstat',
              'truncate', 'link', 'symlink', 'fsync', 'scandir', 'listdir'):
        R[n] = getattr(os, n)
    builtins.open = sim_open
    io.open = sim_open
    for n in ('replace', 'rename', 'link'):
        setattr(os, n, _wrap2(n, 'fs.' + ('replace' if n == 'rename' else n)))
    for n in ('remove', 'unlink', 'mkdir', 'rmdir', 'truncate'):
        setattr(os, n, _wrap1(n, 'fs.' + ('remove' if n == 'unlink' else n)))
    os.open = _os_open
    os.write = _os_write
    os.close = _os_close
    os.stat = _stat_point('stat')
    os.urandom = _urandom
    os.getpid = _getpid
    _install_soundfile()
    _install_h5py()
