"""Simulated environment: clock, subprocesses, audio device, network, fresh memory, warnings, output."""
import sys
import os
import io
import types
import time as _time
import datetime as _datetime
import subprocess as _subprocess
import warnings as _warnings
import numpy as np

from . import sim as S
from . import image as _image
from .sched import current_task, SimExit

_real_time = _time.time
_real_monotonic = _time.monotonic
_real_perf = _time.perf_counter
_real_sleep = _time.sleep
EPOCH = 1.7e9


def _pkg(depth=2):
    n = sys._getframe(depth).f_globals.get('__name__', '')
    return n == _image.PKG or n.startswith(_image.PKG + '.')


# ------------------------------------------------------------------ clock
def now(s):
    return EPOCH + s.env.get('clock_offset', 0.0) + s.sched.now * s.env.get('clock_rate', 1.0)


def _t(real, f):
    def g(*a):
        s = S.here()
        if s is not None and _pkg(2):
            s.count('clock.read')
            jump = s.env.get('clock_jumps')
            if jump:
                s.env['clock_offset'] = s.env.get('clock_offset', 0.0) + jump.pop(0)
            return f(s, *a)
        return real(*a)
    return g


_real_datetime = _datetime.datetime


class _DTMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _real_datetime)

    def __subclasscheck__(cls, c):
        return issubclass(c, _real_datetime)


class SimDatetime(_real_datetime, metaclass=_DTMeta):
    @classmethod
    def now(cls, tz=None):
        s = S.here()
        if s is not None:
            s.count('clock.read')
            s.faults.hit('clock')
            return _real_datetime.fromtimestamp(now(s), tz or _datetime.timezone.utc).replace(tzinfo=tz)
        return _real_datetime.now(tz)

    @classmethod
    def utcnow(cls):
        s = S.here()
        if s is not None:
            return _real_datetime.fromtimestamp(now(s), _datetime.timezone.utc).replace(tzinfo=None)
        return _real_datetime.utcnow()

    @classmethod
    def today(cls):
        return cls.now()


# ------------------------------------------------------------------ subprocess
class SimPopen:
    """The only program of the simulated machine is git."""

    def __init__(self, args, *a, **k):
        s = S.here()
        s.count('subprocess')
        plan = s.env.get('git', {})
        self.args = args
        kind = plan.get('kind', 'ok')
        self.text = bool(k.get('text') or k.get('universal_newlines') or k.get('encoding'))
        self.stdin = self.stdout = self.stderr = None
        if kind == 'missing':
            raise FileNotFoundError(2, 'No such file or directory', 'git')
        if kind == 'denied':
            raise PermissionError(13, 'Permission denied', 'git')
        if kind == 'enomem':
            raise OSError(12, 'Cannot allocate memory')
        if kind == 'emfile':
            raise OSError(24, 'Too many open files')
        other = {'eagain': BlockingIOError(11, 'Resource temporarily unavailable'),
                 'notdir': NotADirectoryError(20, 'Not a directory'), 'loop': OSError(40, 'Too many levels of symbolic links'),
                 'format': OSError(8, 'Exec format error'), 'preexec': _subprocess.SubprocessError('Exception occurred in preexec_fn.'),
                 'memory': MemoryError(), 'null': ValueError('embedded null byte'),
                 'nocwd': FileNotFoundError(2, 'No such file or directory', str(k.get('cwd')))}.get(kind)
        if other is not None:
            raise other
        self.returncode = None
        self._rc = {'fail': 128, 'killed': -9}.get(kind, 0)
        out = plan.get('out', 'v0.2.0-3-gabcdef0\n').encode('latin-1')
        if kind == 'fail':
            out = b''
        self._out = out
        self._timeout = kind == 'hang'
        self._err = b'fatal: not a git repository\n' if kind == 'fail' else b''
        self.pid = 4242

    def _dec(self, b):
        return b.decode() if self.text else b

    def communicate(self, input=None, timeout=None):
        s = S.here()
        if self._timeout:
            if timeout is None:
                s.sched.block(None)
            s.sched.now += timeout
            raise _subprocess.TimeoutExpired(self.args, timeout)
        self.returncode = self._rc
        return self._dec(self._out), self._dec(self._err)

    def wait(self, timeout=None):
        self.returncode = self._rc
        return self._rc

    def poll(self):
        return self.returncode

    def kill(self):
        self.returncode = -9
        self._timeout = False

    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


_real_popen = _subprocess.Popen


class _PopenMeta(type):
    def __call__(cls, *a, **k):
        if S.here() is not None:
            return SimPopen(*a, **k)
        return _real_popen(*a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, _real_popen)


class _Popen(_real_popen, metaclass=_PopenMeta):
    pass


# ------------------------------------------------------------------ audio device
class PortAudioError(Exception):
    pass


def _need():
    s = S.here()
    if s is None:
        raise PortAudioError('no simulated device outside a simulation')
    return s


class Device:
    def __init__(self):
        self.plays = []        # dict(data, fs, start, end)
        self.busy_until = 0.0
        self.latency = 0.0
        self.calls = []


def device(s):
    d = s.env.get('device')
    if d is None:
        d = s.env['device'] = Device()
    return d


def _sd_module():
    m = types.ModuleType('sounddevice')
    m.PortAudioError = PortAudioError
    m.default = types.SimpleNamespace(samplerate=None, device=None, channels=None)

    def play(data, samplerate=None, mapping=None, blocking=False, loop=False, **kw):
        s = _need()
        d = device(s)
        s.sched.point('sd.play')
        f = s.faults.hit('sd.play')
        if f is not None:
            if f['kind'] == 'busy':
                raise PortAudioError('Device unavailable (simulated)')
            raise PortAudioError('Error opening stream (simulated)')
        data = np.asarray(data)
        if data.ndim > 2 or data.size == 0:
            raise ValueError('data must be one- or two-dimensional')
        if data.ndim == 2 and data.shape[1] > 128:
            raise PortAudioError('Invalid number of channels')
        if samplerate is None:
            samplerate = m.default.samplerate or 44100
        samplerate = float(samplerate)
        if not samplerate > 0 or (s.env.get('device_rates') and samplerate not in s.env['device_rates']):
            raise PortAudioError('Invalid sample rate [PaErrorCode -9997]')
        if data.ndim == 2 and data.shape[1] > s.env.get('device_channels', 128):
            raise PortAudioError('Invalid number of channels [PaErrorCode -9998]')
        stop(True)
        # PortAudio pulls the frames later: what arrives is what the buffer holds while playing
        n = data.shape[0]
        dur = n / float(samplerate)
        start = s.sched.now + d.latency
        rec = dict(buf=data, snap=np.array(data), fs=samplerate, start=start, end=start + dur, mapping=mapping,
                   loop=loop, stopped=None, done=False)
        d.plays.append(rec)
        d.calls.append(('play', s.sched.now))
        s.count('device.plays')
        if blocking:
            wait()

    def wait(ignore_errors=True):
        s = _need()
        d = device(s)
        d.calls.append(('wait', s.sched.now))
        f = s.faults.hit('sd.wait')
        if d.plays and d.plays[-1]['stopped'] is None:
            rec = d.plays[-1]
            if f is not None:                # Ctrl-C while waiting
                if s.sched.now < rec['end']:
                    s.sched.sleep((rec['end'] - s.sched.now) * f.get('frac', .5))
                rec['stopped'] = s.sched.now
                raise KeyboardInterrupt('simulated')
            if s.sched.now < rec['end']:
                s.sched.sleep(rec['end'] - s.sched.now)
            rec['done'] = True

    def stop(ignore_errors=True):
        s = _need()
        d = device(s)
        if d.plays:
            rec = d.plays[-1]
            if rec['stopped'] is None and not rec['done'] and s.sched.now < rec['end']:
                rec['stopped'] = s.sched.now
    m.play = play
    m.wait = wait
    m.stop = stop
    m.query_devices = lambda *a, **k: []
    m.get_status = lambda: None
    return m


class OutputStreamStub:
    pass


# ------------------------------------------------------------------ network
def _requests_module():
    m = types.ModuleType('requests')

    class RequestException(IOError):
        pass

    class ConnectionError_(RequestException):
        pass

    class Timeout(RequestException):
        pass

    class HTTPError(RequestException):
        pass
    m.RequestException = RequestException
    m.ConnectionError = ConnectionError_
    m.Timeout = Timeout
    m.HTTPError = HTTPError
    m.exceptions = types.SimpleNamespace(RequestException=RequestException, ConnectionError=ConnectionError_,
                                         Timeout=Timeout, HTTPError=HTTPError)

    class Response:
        def __init__(self, content, code=200):
            self.content = content
            self.status_code = code
            self.ok = code < 400
            self.headers = {'Content-Length': str(len(content)), 'content-length': str(len(content))}
            self.raw = io.BytesIO(content)
            self.reason = ''
            self.url = ''

        @property
        def text(self):
            return self.content.decode('latin-1')

        def raise_for_status(self):
            if self.status_code >= 400:
                raise HTTPError('%d error' % self.status_code)

        def iter_content(self, chunk_size=1, decode_unicode=False):
            s = S.here()
            for i in range(0, len(self.content), chunk_size or 1 << 20):
                if s is not None:
                    s.sched.point('net.chunk')
                yield self.content[i:i + (chunk_size or 1 << 20)]

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    def get(url, *a, **k):
        s = S.here()
        if s is None:
            raise ConnectionError_('no network outside a simulation')
        s.count('net.requests')
        s.sched.point('net.request')
        s.sched.sleep(s.env.get('net_delay', 0.05))
        f = s.faults.hit('net.get')
        body = s.env.get('net_body', b'')
        if f is not None:
            k = f['kind']
            if k == 'crash':
                s.count('crashes')
                s.kill_proc(current_task().proc)
            if k == 'slow':
                s.sched.sleep(600)
            if k == 'conn':
                raise ConnectionError_('connection refused (simulated)')
            if k == 'timeout':
                s.sched.now += 60
                raise Timeout('timed out (simulated)')
            if k == 'http500':
                return Response(b'<html>Internal error</html>', 500)
            if k == 'html':
                return Response(b'<html><body>maintenance</body></html>', 200)
            if k == 'truncated':
                return Response(body[:max(1, int(len(body) * f.get('frac', 0.6)))])
            if k == 'corrupt':
                b = bytearray(body)
                i = int(len(b) * f.get('frac', 0.5))
                for j in range(i, min(i + 40, len(b))):
                    b[j] ^= 0xff
                return Response(bytes(b))
            if k == 'empty':
                return Response(b'')
        return Response(body)
    m.get = get

    class Session:
        def get(self, *a, **k):
            return get(*a, **k)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass
    m.Session = Session
    return m


# ------------------------------------------------------------------ fresh memory
_real_empty = np.empty
_real_empty_like = np.empty_like


def _poison(s, a):
    p = s.env.get('poison')
    if p is None:
        p = -6.03e9           # (deterministic, and nothing anybody could take for a result)
    try:
        if a.dtype.kind == 'f':
            a.fill(p)
        elif a.dtype.kind == 'c':
            a.fill(complex(p, p))
        elif a.dtype.kind in 'iu':
            a.view(np.uint8 if a.flags.c_contiguous and a.ndim else a.dtype).fill(0x5b)
        elif a.dtype.kind == 'b':
            a.fill(True)
        s.count('poisoned')
    except Exception:
        pass
    return a


def _empty(*a, **k):
    r = _real_empty(*a, **k)
    s = S.here()
    if s is not None and _pkg(2):
        return _poison(s, r)
    return r


def _empty_like(*a, **k):
    r = _real_empty_like(*a, **k)
    s = S.here()
    if s is not None and _pkg(2):
        return _poison(s, r)
    return r


# ------------------------------------------------------------------ warnings and output
def _showwarning(message, category, filename, lineno, file=None, line=None):
    t = current_task()
    if t is not None and S.ACTIVE is not None:
        t.warnings.append((category.__name__, str(message)))


class Null(io.TextIOBase):
    def write(self, s):
        return len(s)


SD = _sd_module()
REQUESTS = _requests_module()


def install():
    _time.time = _t(_real_time, now)
    _time.monotonic = _t(_real_monotonic, lambda s: s.sched.now)
    _time.perf_counter = _t(_real_perf, lambda s: s.sched.now)
    _time.sleep = _t(_real_sleep, lambda s, x: s.sched.sleep(x))
    _datetime.datetime = SimDatetime
    _subprocess.Popen = _Popen
    sys.modules['sounddevice'] = SD
    sys.modules['requests'] = REQUESTS
    np.empty = _empty
    np.empty_like = _empty_like
    _warnings.showwarning = _showwarning
    _warnings.simplefilter('always')
