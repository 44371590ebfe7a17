"""Prepares a worker interpreter: imports the real libraries once, installs the seams, makes the scratch root."""
import os
import sys
import random
import shutil
import tempfile

_done = False
ROOT = None           # simulated checkout root (scratch): holds data/


def boot():
    global _done, ROOT
    if _done:
        return
    _done = True
    import faulthandler
    faulthandler.enable()
    import numpy as np
    import scipy.signal, scipy.io, scipy.spatial, scipy.special, scipy.linalg       # noqa
    import scipy.interpolate, scipy.fft, scipy.io.matlab                            # noqa
    import resampy, soundfile, h5py                                                 # noqa
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot                                                        # noqa
    from mpl_toolkits.mplot3d import Axes3D                                         # noqa
    import pathlib, json, subprocess, logging, copy, zipfile, uuid, tempfile as _t  # noqa
    from . import sim, image, mp, env, fs, dsp
    base = os.environ.get('SIMKIT_SCRATCH')
    if not base or not os.path.isdir(base):
        base = tempfile.mkdtemp(prefix='simkit-')
        import atexit
        atexit.register(lambda: shutil.rmtree(base, ignore_errors=True))
    ROOT = os.path.join(base, 'w%d' % os.getpid())
    os.makedirs(ROOT, exist_ok=True)
    repo = os.environ.get('VERIF_REPO', '/repo')
    src = image.Sources(repo)
    finder = image.Finder(src)
    finder.root = os.path.join(ROOT, 'checkout')
    os.makedirs(os.path.join(finder.root, 'spaudiopy'), exist_ok=True)
    os.makedirs(os.path.join(finder.root, 'data', 'Grids'), exist_ok=True)
    g = os.path.join(repo, 'data', 'Grids')
    for f in sorted(os.listdir(g)):
        if os.path.isfile(os.path.join(g, f)):
            os.symlink(os.path.join(g, f), os.path.join(finder.root, 'data', 'Grids', f))
    sys.meta_path.insert(0, finder)
    sim.FINDER = finder
    # CPython 3.12 delivers bytecode events only to trace functions set after the first frame asked for them
    sys._getframe().f_trace_opcodes = True
    sys._getframe().f_trace_opcodes = False
    mp.install()
    env.install()
    fs.install()
    dsp.install()
    sys.stdout = env.Null()


def prepare(check):
    """Warm up what the check needs (JIT compilation, font caches), outside any simulation."""
    import numpy as np
    if 'resampy' in check.needs:
        import resampy
        for d in (np.ones((2, 64)), np.ones(64), np.ones((1, 64))):
            resampy.resample(d, 44100, 48000, axis=-1)
            resampy.resample(d, 48000, 44100, axis=-1)
    check.setup()
    import gc
    gc.collect()
    gc.freeze()          # keeps the collections between runs cheap


_np_state = None


def reset_globals():
    """Every execution starts from the same interpreter state."""
    import numpy as np
    import warnings
    from . import env, mp, fs
    np.random.seed(12345)
    random.seed(54321)
    np.seterr(all='warn')
    np.set_printoptions()
    warnings.resetwarnings()
    warnings.simplefilter('always')
    warnings.showwarning = env._showwarning
    mp._shared_by_id.clear()
    mp._ThreadVal.store.clear()
    mp._ThreadVal.n = 0
    sys.modules['sounddevice'] = env.SD
    sys.modules['requests'] = env.REQUESTS
    env.SD.default.samplerate = None
    fs.reset()
    os.chdir('/')
