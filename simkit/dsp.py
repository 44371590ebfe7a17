"""Seam around the signal processing routines the package relies on: they can be made to fail."""
import functools
import sys


def _wrap(module, name, site):
    real = getattr(module, name)

    @functools.wraps(real)
    def f(*a, **k):
        from . import sim
        s = sim.here()
        if s is not None and s.env.get('dsp'):
            p = s.faults.hit(site)
            if p is not None:
                raise sim.make_error(p['kind'])
            memo = s.env.get('resample_memo')
            if memo is not None and site == 'dsp.resample' and len(a) == 3 and not k and getattr(a[0], 'ndim', 0) == 1:
                key = (a[0].tobytes(), a[0].dtype.str, a[1], a[2])
                if key not in memo:
                    memo[key] = real(*a)
                return memo[key].copy()
        return real(*a, **k)
    setattr(module, name, f)
    home = sys.modules.get(real.__module__)
    if home is not None and getattr(home, real.__name__, None) is real:
        setattr(home, real.__name__, f)        # pickled by reference to where it was defined


def install():
    import numpy as np
    import scipy.signal
    import resampy
    for n in ('convolve', 'fftconvolve', 'oaconvolve', 'lfilter'):
        _wrap(scipy.signal, n, 'dsp.convolve')
    _wrap(np, 'convolve', 'dsp.convolve')
    for n in ('resample', 'resample_poly'):
        _wrap(scipy.signal, n, 'dsp.resample')
    _wrap(resampy, 'resample', 'dsp.resample')
