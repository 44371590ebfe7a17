"""Shared helpers of the checks."""
import gc
import warnings
import numpy as np

from simkit import sim as S
from simkit.sim import Sim
from simkit.sched import SimHang, SimBudget, SimExit, HarnessError, current_task
from simkit.base import Check, violation
from simkit import mp as simmp

METHODS = ['fork', 'fork', 'spawn', 'forkserver']


def rng_of(seed):
    return np.random.Generator(np.random.PCG64(seed))


def plain(x):
    """Independent plain copy of a result (arrays, lists, tuples, scalars)."""
    if isinstance(x, np.ndarray):
        return np.array(np.ndarray.view(x, np.ndarray))
    if isinstance(x, tuple):
        return tuple(plain(v) for v in x)
    if isinstance(x, list):
        return [plain(v) for v in x]
    return x


def diff(a, b, rtol=1e-9, atol=1e-11, path='', equal_nan=True):
    """None if equal up to rounding, else a description of the first difference."""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return '%s: %d items instead of %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, rtol, atol, '%s[%d]' % (path, i), equal_nan)
            if d:
                return d
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(a) != sorted(b):
            return '%s: keys %s instead of %s' % (path, sorted(a), sorted(b))
        for k in a:
            d = diff(a[k], b[k], rtol, atol, '%s[%r]' % (path, k), equal_nan)
            if d:
                return d
        return None
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return None if a == b else '%s: %r instead of %r' % (path, a, b)
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return '%s: shape %s instead of %s' % (path, x.shape, y.shape)
    if x.size == 0:
        return None
    if x.dtype.kind not in 'fciub' or y.dtype.kind not in 'fciub':
        return None if (x == y).all() else '%s: %r instead of %r' % (path, a, b)
    fin = y[np.isfinite(y)] if y.dtype.kind in 'fc' else y
    scale = float(np.max(np.abs(fin.astype(complex)))) if fin.size else 0.0
    ok = np.isclose(x, y, rtol=rtol, atol=atol + rtol * scale, equal_nan=equal_nan)
    if ok.all():
        return None
    i = tuple(int(v) for v in np.argwhere(~ok)[0]) if ok.ndim else ()
    return '%s%s: %r instead of %r (%d of %d values differ)' % (path, list(i), x[i], y[i], int((~ok).sum()), x.size)


def digest(x):
    """Coarse digest of a result for the determinism self-check."""
    import hashlib
    h = hashlib.sha256()

    def go(v):
        if isinstance(v, (tuple, list)):
            for w in v:
                go(w)
        elif isinstance(v, dict):
            for k in sorted(v):
                h.update(str(k).encode())
                go(v[k])
        else:
            a = np.asarray(v)
            if a.dtype.kind in 'fc':
                h.update(np.round(a.astype(complex), 9).tobytes())
            else:
                h.update(repr(v).encode() if a.ndim == 0 else a.tobytes())
    go(x)
    return h.hexdigest()[:16]


def sphere_points(rng, n):
    v = rng.normal(size=(n, 3))
    v /= np.linalg.norm(v, axis=1)[:, None]
    return v


def to_sph(v):
    azi = np.arctan2(v[:, 1], v[:, 0])
    zen = np.arccos(np.clip(v[:, 2], -1, 1))
    return azi, zen


def unit(azi, zen):
    azi, zen = np.asarray(azi, float), np.asarray(zen, float)
    return np.stack([np.cos(azi) * np.sin(zen), np.sin(azi) * np.sin(zen), np.cos(zen)], axis=-1)


def hrir_data(rng, g, taps):
    """HRIR set on random (tie-free) directions."""
    azi, zen = to_sph(sphere_points(rng, g))
    return dict(left=rng.normal(size=(g, taps)), right=rng.normal(size=(g, taps)), azi=azi, zen=zen)


def nearest(azi, zen, gazi, gzen):
    """Index of the closest grid direction, and the margin to the runner-up."""
    d = unit(azi, zen) @ unit(gazi, gzen).T
    d = np.atleast_2d(d)
    i = np.argmax(d, axis=1)
    if d.shape[1] == 1:
        return i, np.inf
    s = np.sort(d, axis=1)
    return i, float(np.min(s[:, -1] - s[:, -2]))


def setup_points(rng, kind=None):
    """Loudspeaker positions that enclose the origin."""
    kind = kind or rng.choice(['cube', 'octa', 'ico', 'random', 'ring'])
    if kind == 'octa':
        p = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1.]])
    elif kind == 'cube':
        p = np.array([[x, y, z] for x in (-1, 1) for y in (-1, 1) for z in (-1, 1.)]) / np.sqrt(3)
    elif kind == 'ico':
        g = (1 + 5 ** .5) / 2
        p = np.array([[0, a, b * g] for a in (-1, 1) for b in (-1, 1)] + [[a, b * g, 0] for a in (-1, 1) for b in
                     (-1, 1)] + [[a * g, 0, b] for a in (-1, 1) for b in (-1, 1)], float)
        p /= np.linalg.norm(p[0])
    elif kind == 'ring':
        a = np.deg2rad([30, 90, 150, 210, 270, 330])
        p = np.vstack([np.c_[np.cos(a), np.sin(a), 0 * a], [[0.5, 0.2, 0.8], [-0.5, -0.4, 0.7]], [[0, 0.1, -1]]])
        p /= np.linalg.norm(p, axis=1)[:, None]
    else:
        p = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1.]])
        p = np.vstack([p, sphere_points(rng, 4)])
    # generic position: no coplanar faces, no ties
    p = p + rng.normal(size=p.shape) * 0.03
    p /= np.linalg.norm(p, axis=1)[:, None]
    return p * (1 + 0.3 * rng.random((len(p), 1)))


class Outcome:
    """What a call did: value or exception."""
    __slots__ = ('value', 'exc', 'hang')

    def __init__(self):
        self.value = None
        self.exc = None
        self.hang = False

    @property
    def ok(self):
        return self.exc is None and not self.hang

    def __repr__(self):
        if self.hang:
            return 'no return'
        if self.exc is not None:
            return '%s: %s' % (type(self.exc).__name__, str(self.exc)[:200])
        return 'returned'


def call(f, *a, keep=False, **k):
    """-> Outcome; keep: the exception keeps the frames it came through alive, as in a program that is handling it."""
    o = Outcome()
    try:
        o.value = f(*a, **k)
    except SimHang:
        o.hang = True
    except (SimExit, HarnessError):
        raise
    except SimBudget:
        raise HarnessError('decision budget exceeded')
    except (Exception, KeyboardInterrupt, SystemExit) as e:
        o.exc = e
        if not keep:
            drop_frames(o)
    return o


def drop_frames(o):
    if o.exc is not None:
        o.exc = o.exc.with_traceback(None)
        o.exc.__context__ = None
        o.exc.__cause__ = None


def simenv(scn, faults, strategy, **k):
    return Sim(strategy, faults, cpu_count=scn.get('cpu', 4), start_method=scn.get('method', 'fork'), **k)


def jobs_choice(rng, hi=6):
    return rng.choice([2, 2, 3, 4, rng.randint(2, hi), rng.choice([5, 7, 9, 12]), None])


def shrink_ints(scn, mins):
    """Candidate scenarios with smaller numbers."""
    out = []
    if scn.get('trace'):
        out.append(dict(scn, trace=None))
    for k, lo in mins.items():
        v = scn.get(k)
        if isinstance(v, int) and v > lo:
            for w in sorted({lo, (v + lo) // 2, v - 1}):
                if w < v:
                    out.append(dict(scn, **{k: w}))
        elif v is None and k == 'jobs':
            out.append(dict(scn, jobs=2))
    return out


def traced(sim, f, *a, **k):
    """call() with a scheduling point and a fault site at every line of the package."""
    import sys
    old = sys.gettrace()
    sys.settrace(sim.tracer())
    try:
        return call(f, *a, **k)
    finally:
        sys.settrace(old)


def fresh(sim, f):
    """f(spa) in a separate simulated process with its own image of the package."""
    box = []
    on = sim.faults.enabled
    sim.faults.enabled = False
    try:
        p, t = sim.spawn_process('reference', lambda spa: box.append(call(f, spa)))
        sim.join([t])
    finally:
        sim.faults.enabled = on
    if not box:
        raise HarnessError('reference process died: %r' % (t.exc,))
    return box[0]


def line_fault(sim, kinds=None):
    sim.line_plan = lambda task, frame: task.proc is sim.main.proc


def shrink_list(scn, key, least=1):
    out = []
    v = scn[key]
    n = len(v)
    if n > least + 2:
        out.append(dict(scn, **{key: v[:n // 2]}))
        out.append(dict(scn, **{key: v[n // 2:]}))
    for i in range(n - 1, -1, -1):
        if n > least:
            out.append(dict(scn, **{key: v[:i] + v[i + 1:]}))
    return out
