"""Catalogue of the public functions: how to call each of them on small inputs, what their arguments and results look
like from the outside. Used by C08 (concurrent callers), C09 (caller's data) and C18 (nothing but the arguments)."""
import os
import hashlib
import numpy as np
from .common import *
from simkit import fs as simfs

OPS = {}
FS = 48000


def op(*tags):
    def deco(f):
        OPS[f.__name__] = (f, set(tags))
        return f
    return deco


STYLES = [None] * 6 + ['ties', 'const', 'tiny', 'big', 'sparse', 'zeros', 'sorted', 'rows']
LAYOUTS = ['c', 'c', 'c', 'f', 'stride', 'neg', 'f4', 'int', 'list', 'sub', 'be']


def wav_chunks(path):
    """Format and samples of a WAV file as bytes (the PEAK chunk holds the time of writing)."""
    with simfs._open(path, 'rb') as g:
        b = g.read()
    out, i = [], 12
    while i + 8 <= len(b):
        n = int.from_bytes(b[i + 4:i + 8], 'little')
        if b[i:i + 4] in (b'fmt ', b'data'):
            out.append(b[i:i + 8 + n])
        i += 8 + n + (n & 1)
    return np.frombuffer(b''.join(out), np.uint8)


class World:
    """Arguments for the calls of one scenario. Shared worlds hand out the same objects for the same key."""

    def __init__(self, spa, seed, layout='c', shared=False, special=None, params=None, style=None):
        self.spa = spa
        self.seed = seed
        self.layout = layout
        self.shared = shared
        self.special = special
        self.style = style
        self.cache = {}
        self.nsrc = 7
        self.keep = []           # whole buffers behind the arrays handed out
        self.pseed = seed if params is None else params

    def key_rng(self, key):
        return rng_of(int.from_bytes(hashlib.sha256(repr((self.seed, key)).encode()).digest()[:6], 'big'))

    def par(self, name, *choices):
        """A scalar parameter of the call."""
        r = rng_of(int.from_bytes(hashlib.sha256(repr((self.pseed, name)).encode()).digest()[:6], 'big'))
        return choices[int(r.integers(len(choices)))]

    SIZES = {7: [1, 2, 5, 16, 33], 9: [1, 3, 4, 25, 50], 12: [4, 6, 13, 30, 61], 40: [33, 64, 101, 257], 60: [45, 64, 131],
             5: [1, 2, 8, 31], 20: [5, 6, 8, 13, 48], 6: [1, 3, 17], 8: [1, 2, 5, 13], 30: [24, 64, 77]}

    def n(self, k):
        """A size of the arguments: the usual one or another."""
        return self.par(('n', k), *([k] * 4 + self.SIZES[k]))

    def get(self, key, build, where=None):
        if not self.shared:
            return build(self.key_rng(key))
        at = key, where or build.__code__.co_firstlineno
        if at not in self.cache:
            self.cache[at] = build(self.key_rng(key))
        return self.cache[at]

    def lay(self, x, layout=None):
        x = np.array(x)
        k = layout or self.layout
        if x.ndim == 0:
            return x
        if k == 'f' and x.ndim > 1:
            x = np.asfortranarray(x)
        elif k == 'stride':
            b = np.full(x.shape[:-1] + (2 * x.shape[-1] + 1,), 7.25, dtype=x.dtype)
            b[..., 1::2] = x
            self.keep.append(b)
            x = b[..., 1::2]
        elif k == 'neg':
            b = np.array(x[..., ::-1])
            self.keep.append(b)
            x = b[..., ::-1]
        elif k == 'f4':
            x = x.astype(np.complex64 if x.dtype.kind == 'c' else np.float32 if x.dtype.kind == 'f' else x.dtype)
        elif k == 'int' and x.dtype.kind == 'f':
            x = np.round(x * 8).astype(np.int64)
        elif k == 'list':
            return x.tolist()
        elif k == 'sub':
            b = np.full(tuple(n + 2 for n in x.shape), 3.5, dtype=x.dtype)
            v = b[tuple(slice(1, -1) for _ in x.shape)]
            v[...] = x
            self.keep.append(b)
            x = v
        elif k == 'be':
            x = x.astype(x.dtype.newbyteorder('>'))
        return x

    def shape_up(self, x, rng):
        """Values of another kind than well-spread numbers of order one."""
        k = self.style
        if k == 'ties':
            return np.round(x * 2) / 2
        if k == 'const':
            return np.full_like(x, rng.normal())
        if k == 'tiny':
            return x * 1e-9
        if k == 'big':
            return x * 1e5
        if k == 'sparse':
            return np.where(rng.random(x.shape) < .7, 0.0, x)
        if k == 'zeros':
            return np.zeros_like(x)
        if k == 'sorted':
            return np.sort(x, axis=-1) if x.ndim else x
        if k == 'rows' and x.ndim > 1:
            x[-1] = x[0]
        return x

    def arr(self, key, shape, lo=None, cplx=False, plain=False):
        """Array argument with random values (the same for the same key)."""
        def build(rng):
            x = self.shape_up(rng.normal(size=shape), rng)
            if cplx:
                x = x + 1j * rng.normal(size=shape)
            if lo is not None:
                x = lo + np.abs(x)
            if self.special and not cplx and x.ndim and x.size > 3:
                i = int(rng.integers(x.size))
                x.flat[i] = {'nan': np.nan, 'inf': np.inf, 'zero': 0.0, 'nzero': -0.0}[self.special]
            return x if plain else self.lay(x)
        return self.get((key, shape, lo, cplx, plain), build)

    def val(self, key, f):
        return self.get(key, lambda rng: self.lay(f(rng)), f.__code__.co_firstlineno)

    def obj(self, key, f):
        return self.get(key, f)

    # ---------------------------------------------------------------- objects
    def dirs(self, n, key='dirs'):
        def points():
            rng = rng_of(self.seed + n)
            azi, zen = to_sph(sphere_points(rng, n))
            k = self.style
            if k == 'ties':                      # a coarse grid, several directions share an angle
                azi, zen = np.round(azi * 4 / np.pi) * np.pi / 4, np.round(zen * 6 / np.pi) * np.pi / 6
            elif k == 'const' or k == 'rows' and n > 1:
                azi[-1], zen[-1] = azi[0], zen[0]
            elif k == 'sparse':                  # poles and axes
                azi[::3], zen[::3] = 0.0, np.where(np.arange(len(zen[::3])) % 2, np.pi, 0.0)
            elif k == 'big':
                azi = azi + 2 * np.pi * rng.integers(-2, 3, size=n)
            elif k == 'sorted':
                azi = np.sort(azi)
            elif k == 'zeros':                   # all on the horizon
                zen = np.full(n, np.pi / 2)
            return azi, zen
        azi = self.val((key, 'azi', n), lambda r: points()[0])
        zen = self.val((key, 'zen', n), lambda r: points()[1])
        return azi, zen

    def hrirs(self, g=14, taps=64):
        def build(rng):
            azi, zen = to_sph(sphere_points(rng, g))
            l, r = rng.normal(size=(2, g, taps)) * np.exp(-np.arange(taps) / 6)
            f = (lambda a: a) if self.layout in ('list', 'int', 'f4') else self.lay
            return self.spa.sig.HRIRs(f(l), f(r), f(azi), f(zen), FS)
        return self.obj(('hrirs', g, taps), build)

    def hull(self, ambi=False):
        def build(rng):
            p = setup_points(rng, 'random')
            h = self.spa.decoder.LoudspeakerSetup(*[c.copy() for c in p.T])
            if ambi:
                h.ambisonics_setup(update_hull=True, imaginary_ls=[[0, 0, -1.4]], N_kernel=2, characteristic_order=1)
            return h
        return self.obj(('hull', ambi), build)

    def open_hull(self):
        def build(rng):
            azi = np.r_[np.arange(5) * 2 * np.pi / 5, np.arange(3) * 2 * np.pi / 3 + .3]
            zen = np.deg2rad(np.r_[np.full(5, 100.), np.full(3, 45.)])
            p = unit(azi + rng.normal(size=8) * .03, zen + rng.normal(size=8) * .03)
            h = self.spa.decoder.LoudspeakerSetup(*[c.copy() for c in p.T])
            h.pop_triangles(85, 90, 150)
            return h
        return self.obj('openhull', build)

    def mono(self, n=40):
        return self.obj(('mono', n), lambda r: self.spa.sig.MonoSignal(self.lay(r.normal(size=n) * .3), FS))

    def multi(self, c=3, n=40):
        return self.obj(('multi', c, n), lambda r: self.spa.sig.MultiSignal([self.lay(x) for x in r.normal(size=(c, n))
                                                                             * .3], fs=FS))

    def ambi(self, n=30):
        return self.obj(('ambi', n), lambda r: self.spa.sig.AmbiBSignal([self.lay(x) for x in r.normal(size=(4, n)) * .3],
                                                                        fs=FS))

    def cov(self, n=4):
        def f(r):
            a = r.normal(size=(n, 2 * n)) + 0.0
            return a @ a.T / (2 * n)
        return self.val(('cov', n), f)

    def file(self, name):
        return os.path.join(simfs.scratch(), name)


# -------------------------------------------------------------------------------------------------- utils
def U(f):
    return op('cheap', 'utils')(f)


@U
def asarray_1d(W):
    return W.spa.utils.asarray_1d, (W.arr('v', W.n(7)),), W.par('k', {}, {}, dict(dtype=float))


@U
def deg2rad(W):
    return W.spa.utils.deg2rad, (W.arr('v', W.n(7)),), {}


@U
def rad2deg(W):
    return W.spa.utils.rad2deg, (W.arr('v', W.n(7)),), {}


@U
def cart2sph(W):
    return W.spa.utils.cart2sph, tuple(W.arr(k, 9) for k in 'xyz'), dict(positive_azi=W.par('pa', False, True),
                                                                       steady_zen=W.par('sz', False, True))


@U
def sph2cart(W):
    return W.spa.utils.sph2cart, (*W.dirs(W.n(9)), W.arr('r', W.n(9), lo=.1)), {}


@U
def matlab_sph2cart(W):
    return W.spa.utils.matlab_sph2cart, W.dirs(W.n(9)), W.par('k', {}, dict(r=W.arr('r', W.n(9), lo=.1)))


@U
def cart2dir(W):
    return W.spa.utils.cart2dir, tuple(W.arr(k, 9) for k in 'xyz'), {}


@U
def dir2cart(W):
    return W.spa.utils.dir2cart, W.dirs(W.n(9)), {}


@U
def vec2dir(W):
    return W.spa.utils.vec2dir, (W.arr('vec', (W.n(6), 3)),), {}


@U
def angle_between(W):
    return W.spa.utils.angle_between, (W.arr('p1', 3), W.arr('p2', 3)), dict(vi=W.par('vi', None, W.arr('p3', 3)))


@U
def rotation_euler(W):
    return W.spa.utils.rotation_euler, W.par('ypr', (0.3, -0.2, 0.), (.3, -.2, 1.), (np.pi / 2, 0., np.pi), (0, 0, 0)), {}


@U
def rotation_rodrigues(W):
    return W.spa.utils.rotation_rodrigues, (W.arr('p1', 3), 0.4), {}


@U
def rotation_vecvec(W):
    return W.spa.utils.rotation_vecvec, (W.arr('p1', 3), W.arr('p2', 3)), {}


@U
def haversine(W):
    a, z = W.dirs(W.n(9))
    b, y = W.dirs(W.n(9), 'other')
    return W.spa.utils.haversine, (a, z, b, y), dict(r=W.par('r', 1, 2.))


@U
def area_triangle(W):
    return W.spa.utils.area_triangle, (W.arr('p1', 3), W.arr('p2', 3), W.arr('p3', 3)), {}


@U
def db(W):
    return W.spa.utils.db, (W.arr('v', W.n(7)),), dict(power=W.par('p', False, True))


@U
def from_db(W):
    return W.spa.utils.from_db, (W.arr('v', W.n(7)),), dict(power=W.par('p', False, True))


@U
def rms(W):
    return W.spa.utils.rms, (W.arr('m', (3, W.n(8))),), dict(axis=W.par('ax', -1, 0))


@U
def stack(W):
    return W.spa.utils.stack, (W.arr('m', (3, W.n(8))), W.arr('m2', (3, W.n(8)))), {}


@U
def test_diff(W):
    return W.spa.utils.test_diff, (W.arr('v', W.n(7)), W.arr('v2', W.n(7))), dict(
        msg=W.par('m', None, 'x'), axis=W.par('ax', None, 0), test_lim=W.par('t', 1e-6, 10.), VERBOSE=W.par('v', True, False))


@U
def interleave_channels(W):
    return W.spa.utils.interleave_channels, (W.arr('il', (360, 3)), W.arr('ir', (360, 3))), dict(style=W.par('s', None,
                                                                                                            'SSR'))


# -------------------------------------------------------------------------------------------------- sph
def S_(f):
    return op('cheap', 'sph')(f)


@S_
def sh_matrix(W):
    return W.spa.sph.sh_matrix, (W.par('N', 0, 1, 2, 3, 5), *W.dirs(W.n(9))), dict(sh_type=W.par('t', 'real', 'complex'))


@S_
def sht(W):
    a, z = W.dirs(W.n(12))
    k = {}
    w = W.par('w', 0, 1, 2, 3)
    if w & 1:
        k['weights'] = W.arr('w', W.n(12), lo=.1)
    if w & 2:
        k['Y_nm'] = W.arr('Y', (W.n(12), 4), plain=W.layout == 'list')
    return W.spa.sph.sht, (W.arr('f', (W.n(12), 2)), 1 if w & 2 else W.par('N', 0, 1, 1, 2), a, z, W.par('t', 'real', 'complex')), k


@S_
def sht1d(W):
    return W.spa.sph.sht, (W.arr('f1', W.n(12)), 1, *W.dirs(W.n(12)), 'real'), dict(weights=W.par('w', None, W.arr('w', W.n(12), lo=.1)))


@S_
def sht_lstsq(W):
    k = {}
    if W.par('y', 0, 1):
        k['Y_nm'] = W.arr('Y', (W.n(12), 4))
    return W.spa.sph.sht_lstsq, (W.arr('f', (W.n(12), 2)), 1, *W.dirs(W.n(12)), W.par('t', 'real', 'complex')), k


@S_
def inverse_sht(W):
    k = {}
    if W.par('y', 0, 1):
        k['Y_nm'] = W.arr('Y', (W.n(12), 4))
    if W.par('n', 0, 1):
        k['N_sph'] = 1
    return W.spa.sph.inverse_sht, (W.par('d', W.arr('F', (4, W.n(5))), W.arr('F1', 4)), *W.dirs(W.n(12)), W.par('t', 'real',
                                                                                                     'complex')), k


@S_
def sh_rotation_matrix(W):
    return W.spa.sph.sh_rotation_matrix, (W.par('N', 0, 1, 2, 3, 4), *W.par('ypr', (.3, -.4, 0.), (.3, -.4, 1.1), (np.pi, 0., 0.))), dict(
        sh_type=W.par('t', *['real'] * 6, 'complex'),        return_as_blocks=W.par('b', False, True))


@S_
def rotate_sh(W):
    return W.spa.sph.rotate_sh, (W.arr('FT', (W.n(5), W.par('n', 1, 4, 9, 16))), .3, -.4, W.par('r', 0., 1.1)), {}


@S_
def check_cond_sht(W):
    return W.spa.sph.check_cond_sht, (W.par('N', 1, 2, 4), *W.dirs(W.n(12)), W.par('t', 'real', 'complex')), dict(
        lim=W.par('l', None, 2.))


@S_
def n3d_to_sn3d(W):
    return W.spa.sph.n3d_to_sn3d, (W.arr('F', (4, W.n(5))),), {}


@S_
def n3d_to_sn3d_ax1(W):
    return W.spa.sph.n3d_to_sn3d, (W.arr('FT', (W.n(5), 4)),), dict(axis=1)


@S_
def sn3d_to_n3d(W):
    return (lambda F, ax: W.spa.sph.sn3d_to_n3d(F, axis=ax)), W.par('o', (W.arr('F', (4, W.n(5))), 0), (W.arr('FT', (W.n(5), 4)), 1)), {}


@S_
def platonic_solid(W):
    return W.spa.sph.platonic_solid, (W.par('s', 'tetrahedron', 'tetraeder', 'cube'),), {}


@S_
def sh_to_b(W):
    return W.spa.sph.sh_to_b, (W.arr('F', (4, W.n(5))),), dict(W_weight=W.par('w', None, .7))


@S_
def b_to_sh(W):
    return W.spa.sph.b_to_sh, (W.arr('F', (4, W.n(5))),), dict(W_weight=W.par('w', None, .7))


@S_
def soundfield_to_b(W):
    return W.spa.sph.soundfield_to_b, (W.arr('F', (4, W.n(5))),), dict(W_weight=W.par('w', None, .7))


@S_
def src_to_b(W):
    return W.spa.sph.src_to_b, (W.arr('s', W.n(9)), W.par('a', .3, -2.), W.par('z', 1.2, 0.)), {}


@S_
def src_to_sh(W):
    a, z = W.dirs(2)
    return W.spa.sph.src_to_sh, (W.arr('ss', (2, 6)), a, z, W.par('N', 0, 1, 2, 4)), dict(sh_type=W.par('t', 'real', 'complex'))


@S_
def bandlimited_dirac(W):
    return W.spa.sph.bandlimited_dirac, (3, W.arr('d', W.n(6))), dict(w_n=W.par('w', None, W.arr('wn', 4, lo=.1)))


@S_
def max_rE_weights(W):
    return W.spa.sph.max_rE_weights, (W.par('N', 1, 3, 5),), {}


@S_
def r_E(W):
    return W.spa.sph.r_E, (W.arr('pts', (W.n(6), 3)), W.arr('g', (4, W.n(6)), lo=0.)), {}


@S_
def project_on_sphere(W):
    return W.spa.sph.project_on_sphere, tuple(W.arr(k, 9) for k in 'xyz'), {}


@S_
def repeat_per_order(W):
    return W.spa.sph.repeat_per_order, (W.arr('c', 4),), {}


@S_
def spherical_hn2(W):
    return W.spa.sph.spherical_hn2, (W.par('n', 0, 2), W.arr('kr', W.n(7), lo=.2)), dict(derivative=W.par('d', False, True))


@S_
def mode_strength(W):
    return W.spa.sph.mode_strength, (W.par('n', 0, 2), W.arr('kr', W.n(7), lo=.2)), dict(sphere_type=W.par('t', 'rigid',
                                                                                                  'open'))


@S_
def pressure_on_sphere(W):
    return W.spa.sph.pressure_on_sphere, (3, W.arr('kr', W.n(7), lo=.2)), dict(weights=W.par('w', None, W.arr('wn', 4, lo=.1)))


@S_
def binaural_coloration_compensation(W):
    return W.spa.sph.binaural_coloration_compensation, (2, W.arr('fr', W.n(7), lo=100.)), dict(
        r_0=W.par('r0', .0875, .04), w_taper=W.par('w', None, W.arr('w3', 3, lo=.1)))


@S_
def unity_gain(W):
    return W.spa.sph.unity_gain, (W.arr('wn', 4, lo=.1),), {}


@S_
def modal_weights(W):
    s = W.spa.sph
    f = W.par('f', s.hypercardioid_modal_weights, s.cardioid_modal_weights, s.maxre_modal_weights)
    k = dict(UNITAMP=W.par('u', True, False)) if f is s.maxre_modal_weights else {}
    return f, (W.par('N', 1, 2, 4),), k


@S_
def butterworth_modal_weights(W):
    return W.spa.sph.butterworth_modal_weights, (3, 5, W.par('c', 2, 3)), dict(UNITAMP=W.par('u', True, False))


@S_
def sph_filterbank_reconstruction_factor(W):
    return W.spa.sph.sph_filterbank_reconstruction_factor, (W.arr('w9', W.n(9), lo=.1), 12), dict(mode=W.par('m', 'amplitude',
                                                                                                        'energy'))


@S_
def design_sph_filterbank(W):
    a, z = W.val('fba', lambda r: unit_design()[0]), W.val('fbz', lambda r: unit_design()[1])
    return W.spa.sph.design_sph_filterbank, (1, a, z, W.arr('w2', 2, lo=.1), W.par('m', 'perfect', 'energy', 'pinv')), dict(
        sh_type=W.par('t', 'real', 'real', 'complex'))


def unit_design():
    g = (1 + 5 ** .5) / 2
    p = np.array([[0, a, b * g] for a in (-1, 1) for b in (-1, 1)] + [[a, b * g, 0] for a in (-1, 1) for b in (-1, 1)] +
                 [[a * g, 0, b] for a in (-1, 1) for b in (-1, 1)], float)
    return to_sph(p / np.linalg.norm(p[0]))


@S_
def sh_mult(W):
    t = W.par('t', 'real', 'complex')
    return W.spa.sph.sh_mult, (W.arr('a4', 4, cplx=t == 'complex'), W.arr('b4', 4, cplx=t == 'complex'), t), {}


# -------------------------------------------------------------------------------------------------- grids
def G(f):
    return op('cheap', 'grids')(f)


@G
def calculate_grid_weights(W):
    return W.spa.grids.calculate_grid_weights, W.dirs(W.n(20)), dict(order=W.par('o', None, 2))


@G
def load_t_design(W):
    return W.spa.grids.load_t_design, (W.par('d', 2, 5, 9, 20, 21, 0, 22),), {}


@G
def load_n_design(W):
    return W.spa.grids.load_n_design, (W.par('d', 2, 5, 9, 30, 0, 125),), {}


@G
def load_lebedev(W):
    return W.spa.grids.load_lebedev, (W.par('d', 3, 4, 9, 13, 25, 27, 2, 132),), {}


@G
def load_Fliege_Maier_nodes(W):
    return W.spa.grids.load_Fliege_Maier_nodes, (W.par('d', 2, 5, 9, 29, 1, 31),), {}


@G
def load_maxDet(W):
    return W.spa.grids.load_maxDet, (W.par('d', 2, 5, 9, 0, 201),), {}


@G
def equal_angle(W):
    return W.spa.grids.equal_angle, (W.par('n', 1, 2, 3, 7),), {}


@G
def gauss(W):
    return W.spa.grids.gauss, (W.par('n', 1, 2, 3, 7),), {}


@G
def equal_polar_angle(W):
    return W.spa.grids.equal_polar_angle, (W.par('n', 1, 2, 3, 7),), {}


# -------------------------------------------------------------------------------------------------- parsa
def P(*t):
    return op('parsa', *t)


@P('cheap')
def sh_beamformer_from_pattern(W):
    return W.spa.parsa.sh_beamformer_from_pattern, (W.par('p', 'cardioid', 'hypercardioid', 'max_re',
                                                          'noise', W.arr('w3', 3, lo=.1)), 2, *W.dirs(3)), {}


@P('cheap')
def sh_beamform(W):
    return W.spa.parsa.sh_beamform, (W.par('w', W.arr('wnm', (3, 4)), W.arr('wnm1', 4)), W.par('s', W.arr('F', (4, W.n(5))), W.arr('F1', 4))), {}


@P('cheap')
def estimate_num_sources(W):
    return W.spa.parsa.estimate_num_sources, (W.cov(),), dict(a=W.par('a', None, 1.4), w=W.par('w', None, W.val(
        'eig', lambda r: np.sort(np.abs(r.normal(size=4)) + .1))))


@P('cheap')
def separate_cov(W):
    return W.spa.parsa.separate_cov, (W.cov(),), dict(num_cut=W.par('n', None, 2))


@P('cheap')
def sh_music(W):
    return W.spa.parsa.sh_music, (W.cov(), W.par('n', 1, 2), *W.dirs(W.n(9))), {}


@P('cheap')
def sh_mvdr(W):
    return W.spa.parsa.sh_mvdr, (W.cov(), *W.dirs(W.n(9))), {}


@P('cheap')
def sh_lcmv(W):
    return W.spa.parsa.sh_lcmv, (W.cov(), *W.dirs(2), W.arr('cg', 2)), {}


@P('cheap')
def sh_sector_beamformer(W):
    return W.spa.parsa.sh_sector_beamformer, (W.arr('Anm', (3, 4)),), {}


@P('cheap', 'jobs')
def pseudo_intensity(W):
    return W.spa.parsa.pseudo_intensity, (W.ambi(60),), dict(win_len=W.par('w', 3, 5, 9), f_bp=W.par('f', None, (100, 5000), [200, 9000]),
                                                           smoothing_order=W.par('s', 3, 5, 0))


@P('cheap')
def render_stereo_sdm(W):
    return W.spa.parsa.render_stereo_sdm, (W.arr('p', W.n(12)), *W.dirs(W.n(12))), {}


@P('cheap', 'jobs')
def render_bsdm(W):
    return W.spa.parsa.render_bsdm, (W.arr('p', W.n(12)), *W.dirs(W.n(12)), W.hrirs()), {}


@P('cheap', 'files')
def render_binaural_loudspeaker_sdm(W):
    h = W.hull()
    g = W.arr('lsg', (W.n(6), h.npoints), lo=0.)
    return W.spa.parsa.render_binaural_loudspeaker_sdm, (W.arr('p6', W.n(6)), g, h, FS), dict(post_eq_func=None)


@P('cheap', 'files')
def render_binaural_loudspeaker_sdm_eq(W):
    h = W.hull()
    g = W.arr('lsg', (W.n(6), h.npoints), lo=0.)
    return W.spa.parsa.render_binaural_loudspeaker_sdm, (W.arr('p6', W.n(6)), g, h, FS), dict(
        post_eq_func=lambda s, p, fs, ls: s * 2.0)


@P('slow')
def sdm_post_equalization(W):
    h = W.hull()
    return W.spa.parsa.sdm_post_equalization, (W.arr('lss', (h.npoints, 30)), W.arr('p30', 30), 4000, h), dict(
        soft_clip=W.par('c', True, False))


@P('slow')
def sdm_post_equalization2(W):
    h = W.hull()
    return W.spa.parsa.sdm_post_equalization2, (W.arr('lss', (h.npoints, 300)), W.arr('p300', 300), FS, h), dict(
        blocksize=W.par('b', 256, 128), smoothing_order=W.par('o', 1, 2, 5))


# -------------------------------------------------------------------------------------------------- decoder
def D(*t):
    return op('decoder', *t)


@D('cheap')
def LoudspeakerSetup(W):
    p = setup_points(rng_of(W.seed), 'cube')
    xyz = tuple(W.val('ls' + k, lambda r, i=i: p[:, i]) for i, k in enumerate('xyz'))
    return W.spa.decoder.LoudspeakerSetup, xyz, dict(listener_position=W.par('o', None, W.val('off', lambda r: np.array(
        [.1, -.1, .05]))))


@D('cheap')
def from_sph(W):
    p = setup_points(rng_of(W.seed), 'cube')
    a, z = to_sph(p / np.linalg.norm(p, axis=1)[:, None])
    return W.spa.decoder.LoudspeakerSetup.from_sph, (W.val('lsa', lambda r: a), W.val('lsz', lambda r: z)), dict(
        r=W.par('r', 1, W.val('lsr', lambda r: np.linalg.norm(p, axis=1))),
        listener_position=W.par('o', None, W.val('offs', lambda r: np.array([.4, 1.2, .1]))))


@D('cheap')
def get_hull(W):
    p = setup_points(rng_of(W.seed), 'cube')
    return W.spa.decoder.get_hull, tuple(W.val('ls' + k, lambda r, i=i: p[:, i]) for i, k in enumerate('xyz')), {}


def _src(W):
    return W.arr('src', (W.nsrc, 3))


@D('cheap', 'jobs')
def vbap(W):
    h = W.hull()
    return W.spa.decoder.vbap, (_src(W), h), dict(norm=W.par('n', 2, 1), valid_simplices=W.par('v', None, None, W.val(
        'vs', lambda r: np.array(h.simplices)[::-1])))


@D('cheap', 'jobs')
def vbip(W):
    h = W.hull()
    return W.spa.decoder.vbip, (_src(W), h), dict(norm=W.par('n', 2, 1), valid_simplices=W.par('v', None, None, W.val(
        'vs2', lambda r: np.array(h.simplices)[::2])))


@D('cheap')
def vbap_outside(W):
    return W.spa.decoder.vbap, (_src(W), W.hull(True)), dict(retain_outside=True)


@D('cheap')
def vbip_outside(W):
    return W.spa.decoder.vbip, (_src(W), W.hull(True)), dict(retain_outside=True)


@D('cheap', 'jobs')
def allrap(W):
    return W.spa.decoder.allrap, (_src(W), W.hull(True)), dict(N_sph=W.par('n', None, 2))


@D('cheap', 'jobs')
def allrap2(W):
    return W.spa.decoder.allrap2, (_src(W), W.hull(True)), dict(N_sph=W.par('n', None, 2))


@D('cheap', 'jobs')
def allrad(W):
    N = W.par('N', None, 1, 2)
    return W.spa.decoder.allrad, (W.arr('F', (9 if N == 2 else 4, W.n(5))), W.hull(True)), dict(N_sph=N)


@D('cheap', 'jobs')
def allrad2(W):
    N = W.par('N', None, 1, 2)
    return W.spa.decoder.allrad2, (W.arr('F', (9 if N == 2 else 4, W.n(5))), W.hull(True)), dict(N_sph=N)


@D('cheap')
def sad(W):
    N = W.par('N', 1, 2, 3, None)
    return W.spa.decoder.sad, (W.arr('F', (((N or W.par('n', 1, 2)) + 1) ** 2, W.n(5))),
                              W.hull(W.par('a', True, False))), dict(N_sph=N)


@D('cheap')
def mad(W):
    N = W.par('N', 1, 2, 3, None)
    return W.spa.decoder.mad, (W.arr('F', (((N or W.par('n', 1, 2)) + 1) ** 2, W.n(5))),
                              W.hull(W.par('a', True, False))), dict(N_sph=N)


@D('cheap')
def epad(W):
    N = W.par('N', 1, 2, 3, None)
    return W.spa.decoder.epad, (W.arr('F', (((N or W.par('n', 1, 2)) + 1) ** 2, W.n(5))),
                              W.hull(W.par('a', True, False))), dict(N_sph=N)


@D('cheap')
def nearest_loudspeaker(W):
    return W.spa.decoder.nearest_loudspeaker, (_src(W), W.hull()), {}


@D('cheap')
def characteristic_ambisonic_order(W):
    return W.spa.decoder.characteristic_ambisonic_order, (W.hull(),), {}


@D('cheap')
def get_characteristic_order(W):
    return (lambda h: h.get_characteristic_order()), (W.hull(),), {}


@D('cheap')
def find_imaginary_loudspeaker(W):
    return W.spa.decoder.find_imaginary_loudspeaker, (W.open_hull(),), {}


@D('cheap')
def hull_checks(W):
    d = W.spa.decoder
    f = W.par('f', d.check_normals, d.check_aperture, d.check_opening, d.check_listener_inside, d.calculate_barycenter,
              d.calculate_centroids, d.calculate_face_normals, d.calculate_face_areas, d.calculate_vertex_normals)
    k = W.par('k', {}, {
        'check_normals': dict(normal_limit=60, listener_position=W.val('lp', lambda r: np.array([.2, 0, -.1]))),
        'check_aperture': dict(aperture_limit=70, listener_position=W.val('lp', lambda r: np.array([.2, 0, -.1]))),
        'check_opening': dict(opening_limit=110),
        'check_listener_inside': dict(listener_position=W.par('lpo', [.1, .2, -.1], [4., 0., 0.])),
        'calculate_face_normals': dict(eps=1e-3, normalize=True),
        'calculate_vertex_normals': dict(normalize=True)}.get(f.__name__, {}))
    return f, (W.hull(),), k


@D('cheap')
def apply_blacklist(W):
    return W.spa.decoder.apply_blacklist, (W.hull(),), dict(blacklist=W.par('b', [0, 1], [2], None))


@D('cheap')
def sort_vertices(W):
    return W.spa.decoder.sort_vertices, (W.get('tri', lambda r: np.array([[4, 1, 2], [0, 3, 1], [5, 2, 4]])),), {}


@D('cheap')
def is_simplex_valid(W):
    h = W.hull()
    return (lambda h, s: bool(h.is_simplex_valid(s))), (h, W.get('simp', lambda r: np.array(h.simplices)[1][::-1].copy())), {}


@D('cheap')
def binauralize(W):
    h = W.hull()
    return (lambda h, s, fs, orientation, hrirs: h.binauralize(s, fs, orientation, hrirs)), \
        (h, W.arr('lsx', (h.npoints, W.n(9))), FS, W.par('o', (0, 0), (.4, .1)), W.hrirs()), {}


@D('cheap', 'files')
def binauralize_default(W):
    h = W.hull()
    return (lambda h, s, fs: h.binauralize(s, fs)), (h, W.arr('lsx', (h.npoints, W.n(9))), FS), {}


@D('cheap')
def loudspeaker_signals(W):
    h = W.hull()
    return (lambda h, g, s: h.loudspeaker_signals(g, s)), (h, W.arr('lsg', (W.n(6), h.npoints), lo=0.),
                                                          W.par('s', None, W.arr('p6', W.n(6)))), {}


@D('cheap')
def sh2bin(W):
    return W.spa.decoder.sh2bin, (W.arr('F9', (4, W.n(9))), W.arr('Hnm', (2, 4, 8))), {}


@D()
def magls_bin(W):
    return W.spa.decoder.magls_bin, (W.hrirs(20, 64), W.par('N', 1, 2)), dict(hf_cont=W.par('c', 'avg', 'delay', 'angle'),
                                                             hf_delay=W.par('d', (0, 0), [1, 2]), f_trans=W.par('f', None, 6000))


# configuration of an own setup: the arguments must survive
@D('cheap', 'own')
def pop_triangles(W):
    def f(bl):
        h = World(W.spa, W.seed).open_hull()
        h.pop_triangles(80, 95, 140, blacklist=bl)
        return h
    return f, (W.get('bl', lambda r: [0, 3]),), {}


@D('own')
def ambisonics_setup(W):
    def f(im):
        if im is None:
            h = World(W.spa, W.seed).open_hull()
            h.ambisonics_setup(update_hull=True, N_kernel=2)
        else:
            h = World(W.spa, W.seed).hull()
            h.ambisonics_setup(update_hull=up, imaginary_ls=im, N_kernel=2, characteristic_order=N)
        return h
    up, N = W.par('u', True, True, False), W.par('N', None, 1, 2)
    return f, (W.par('im', None, W.val('im', lambda r: np.array([[0, 0.1, -1.3]])), W.val('im1', lambda r: np.array(
        [0, 0.1, -1.3]))),), {}


# -------------------------------------------------------------------------------------------------- process
def Pr(*t):
    return op('process', *t)


@Pr('jobs')
def resample_hrirs(W):
    return W.spa.process.resample_hrirs, (W.arr('hl', (3, W.n(40))), W.arr('hr', (3, W.n(40))), FS, W.par('t', 44100, 96000, FS)), {}


@Pr('cheap')
def resample_signal(W):
    return W.spa.process.resample_signal, (W.par('d', W.arr('s40', W.n(40)), W.arr('s2', (2, W.n(40)))), FS, W.par('t', 44100, 24000, FS)), W.par('k', {}, {}, dict(axis=-1), dict(axis=0))


@Pr('cheap')
def resample_spectrum(W):
    return W.spa.process.resample_spectrum, (W.arr('spec', 33, cplx=True), FS, W.par('t', 44100, 24000, FS)), {}


@Pr()
def hrirs_ctf(W):
    h = W.hrirs(30, 64)
    return W.spa.process.hrirs_ctf, (h,), dict(MIN_PHASE=W.par('m', True, False), freq_lims=W.par('fl', (125, 10e3), [300, 8e3]), grid_weights=W.val(
        'gw', lambda r: np.full(30, 4 * np.pi / 30)))


@Pr('cheap')
def hrirs_ctf_weights(W):
    def build(rng):
        azi, zen = to_sph(np.array(W.spa.grids.load_t_design(9)))
        l, r = rng.normal(size=(2, len(azi), 64)) * np.exp(-np.arange(64) / 6)
        return W.spa.sig.HRIRs(l, r, azi, zen, FS)
    return W.spa.process.hrirs_ctf, (W.obj('hrirs design', build),), {}


@Pr('cheap')
def ilds_from_hrirs(W):
    return W.spa.process.ilds_from_hrirs, (W.hrirs(),), dict(TODB=W.par('d', True, False), f_cut=W.par('f', (1e3, 20e3),
                                                                                                     [500, 15e3]))


@Pr()
def itds_from_hrirs(W):
    return W.spa.process.itds_from_hrirs, (W.hrirs(6, 64),), dict(upsample=W.par('u', 1, 2, 3), f_cut=W.par('f', (100, 1.5e3), [200, 2e3]))


@Pr('cheap')
def match_loudness(W):
    return W.spa.process.match_loudness, (W.arr('li', (30, 2)), W.arr('lt', (30, 2))), {}


@Pr('cheap', 'files')
def ambeo_a2b(W):
    k = {}
    if W.par('c', 0, 1):
        k['filter_coeffs'] = W.file('coeffs.pkl')
    return W.spa.process.ambeo_a2b, (W.multi(4),), k


@Pr('cheap')
def b_to_stereo(W):
    return W.spa.process.b_to_stereo, (W.ambi(),), {}


@Pr('cheap')
def lagrange_delay(W):
    return W.spa.process.lagrange_delay, (W.par('n', 2, 5), 1.3), {}


@Pr('cheap')
def frac_octave_smoothing(W):
    return W.spa.process.frac_octave_smoothing, (W.arr('a', W.n(40), lo=.1), W.par('n', 1, 3)), dict(WEIGHTED=W.par('w', True,
                                                                                                             False))


@Pr('cheap')
def frac_octave_filterbank(W):
    n, N, f = W.par('n', (1, 4096, 500), (3, 8192, 2000))
    k = W.par('k', dict(f_high=8000), dict(f_high=6000), dict(f_high=8000, overlap=.25, slope_l=2))
    return W.spa.process.frac_octave_filterbank, (n, N, FS, f), dict(mode=W.par('m', 'energy', 'amplitude', 'other'), **k)


@Pr('cheap')
def subband_levels(W):
    return W.spa.process.subband_levels, (W.arr('sb', (4, W.n(20))), W.arr('wd', 4, lo=100.), FS), dict(power=W.par('p', False,
                                                                                                             True))


@Pr('cheap')
def energy_decay(W):
    return W.spa.process.energy_decay, (W.arr('s40', W.n(40)),), {}


@Pr('cheap')
def gain_clipping(W):
    return W.spa.process.gain_clipping, (W.arr('gn', W.n(12), lo=0.), 1), {}


@Pr('random')
def pulsed_noise(W):
    return W.spa.process.pulsed_noise, (.02, .01, FS), dict(reps=W.par('r', 1, 2, 3), t_fade=.002, pink_noise=W.par('p', True, False),
                                                               normalize=W.par('n', True, False))


# -------------------------------------------------------------------------------------------------- sig
def Sg(*t):
    return op('sig', *t)


@Sg('cheap')
def MonoSignal(W):
    return W.spa.sig.MonoSignal, (W.arr('s40', W.n(40)), FS), {}


@Sg('cheap')
def MultiSignal(W):
    return W.spa.sig.MultiSignal, ([W.arr('s40', W.n(40)), W.arr('t40', W.n(40))],), dict(fs=FS)


@Sg('cheap')
def AmbiBSignal(W):
    return W.spa.sig.AmbiBSignal, ([W.arr('s40', W.n(40)), W.arr('t40', W.n(40)), W.arr('u40', W.n(40)), W.arr('v40', W.n(40))],), dict(fs=FS)


@Sg('cheap')
def sig_sh_to_b(W):
    return W.spa.sig.AmbiBSignal.sh_to_b, (W.multi(4),), {}


@Sg('cheap')
def HRIRs(W):
    return W.spa.sig.HRIRs, (W.arr('hl', (3, W.n(40))), W.arr('hr', (3, W.n(40))), *W.dirs(3), FS), {}


@Sg('cheap')
def copies(W):
    return (lambda s: s.copy()), (W.par('o', W.mono(), W.multi(), W.ambi(), W.hrirs()),), {}


@Sg('cheap')
def get_signals(W):
    return (lambda s: s.get_signals()), (W.par('o', W.multi(), W.ambi()),), {}


@Sg('cheap')
def trim_audio(W):
    return W.spa.sig.trim_audio, (W.par('o', W.multi(), W.ambi(40)), W.par('a', 0, 5) / FS, W.par('b', 30, 39, 60) / FS), {}


@Sg('cheap')
def nearest_idx(W):
    return (lambda h, a, z: h.nearest_idx(a, z)), (W.hrirs(), *W.dirs(W.n(5))), {}


@Sg('cheap')
def nearest_hrirs(W):
    return (lambda h, a, z: h.nearest_hrirs(a, z)), (W.hrirs(), .3, 1.2), {}


# methods that update their own object: everything else they are given must survive
@Sg('cheap', 'own')
def mono_conv(W):
    def f(h, mode):
        s = World(W.spa, W.seed).mono()
        s.conv(h, mode=mode)
        return s
    return f, (W.arr('h8', 8), W.par('m', 'full', 'same', 'valid')), {}


@Sg('cheap', 'own')
def multi_conv(W):
    def f(irs):
        s = World(W.spa, W.seed).multi()
        s.conv(irs)
        return s
    return f, (W.par('i', W.arr('irs', (3, W.n(8))), [W.arr('i1', 8), W.arr('i2', 8), W.arr('i3', 8)]),), {}


@Sg('cheap', 'own')
def set_signal(W):
    def f(v):
        s = World(W.spa, W.seed).mono()
        s.signal = v
        s.trim(2 / FS, 9 / FS)
        s.conv([1., .5])
        return s
    return f, (W.arr('s40', W.n(40)),), {}


@Sg('cheap', 'own')
def set_wxyz(W):
    def f(w, z):
        s = World(W.spa, W.seed).ambi()
        s.W = w
        s.Z = z
        s.trim(2 / FS, 9 / FS)
        return s
    return f, (W.arr('s40', W.n(40)), W.arr('t40', W.n(40))), {}


@Sg('own')
def multi_resample(W):
    def f(v, w):
        s = W.spa.sig.MultiSignal([v, w], fs=FS)
        s.resample(44100)
        return s
    return f, (W.arr('s40', W.n(40)), W.arr('t40', W.n(40))), {}


@Sg('cheap', 'own')
def apply_ctf_eq(W):
    def f(l, r, a, z, taps):
        h = W.spa.sig.HRIRs(l, r, a, z, FS)
        h.apply_ctf_eq(taps, mode='same')
        return h
    return f, (W.arr('hl', (3, W.n(40))), W.arr('hr', (3, W.n(40))), *W.dirs(3), W.arr('h8', 8)), {}


@Sg('cheap', 'own')
def update_hrirs(W):
    def f(l, r):
        h = World(W.spa, W.seed).hrirs(3, 12)
        h.update_hrirs(l, r)
        h.apply_ctf_eq(np.array([1., .3]))
        return h
    return f, (W.arr('hl', (3, W.n(40))), W.arr('hr', (3, W.n(40)))), {}


# -------------------------------------------------------------------------------------------------- io
@op('cheap', 'files', 'io')
def save_audio(W):
    def f(s, name, sub):
        W.spa.io.save_audio(s, name, subtype=sub)
        return wav_chunks(name)
    return f, (W.par('s', W.mono(), W.multi(), W.ambi()), W.file('a.wav'), W.par('t', 'FLOAT', 'PCM_16', 'DOUBLE', 'PCM_24')), {}


@op('cheap', 'files', 'io')
def save_audio_array(W):
    def f(s, name, fs):
        W.spa.io.save_audio(s, name, fs=fs)
        return wav_chunks(name)
    return f, (W.par('s', W.arr('sa', (40, 2)), W.arr('s40', W.n(40))), W.file('a.wav'), FS), {}


@op('cheap', 'files', 'io')
def save_layout(W):
    def f(h, name):
        W.spa.io.save_layout(name, h)
    return f, (W.hull(True), W.file('l.json')), {}


@op('cheap', 'files', 'io')
def load_hrirs(W):
    return W.spa.io.load_hrirs, (W.par('fs', FS, FS, 44100),), W.par('k', {}, {}, dict(filename='dummy'), dict(
        filename=W.file('h.mat')))


@op('files', 'io')
def write_ssr_brirs_sdm(W):
    def f(*a):
        W.spa.io.write_ssr_brirs_sdm(W.file('b.wav'), *a)
        return wav_chunks(W.file('b.wav'))
    h = W.hrirs(5, 8)
    return f, (W.arr('p', 3), *W.dirs(3), FS, 'FLOAT', h), {}


@op('slow', 'files', 'io')
def write_ssr_brirs_loudspeaker(W):
    h = W.hull()

    def f(irs, h, hr):
        W.spa.io.write_ssr_brirs_loudspeaker(W.file('b.wav'), irs, h, FS, hrirs=hr, jobs_count=1)
        return wav_chunks(W.file('b.wav'))
    return f, (W.arr('lsi', (h.npoints, 2)), h, W.hrirs(5, 8)), {}


# reading: files are arguments
@op('cheap', 'files', 'load')
def load_audio(W):
    names = W.par('n', W.file('mono.wav'), [W.file('mono.wav')], [W.file('mono.wav'), W.file('multi.wav')],
                  (W.file('multi.wav'), W.file('mono.wav')), [W.file('multi.wav'), W.file('other.wav')])
    return W.spa.io.load_audio, (names,), dict(fs=W.par('fs', None, None, FS, 44100))


@op('cheap', 'files', 'load')
def from_file(W):
    g = W.spa.sig
    f, n = W.par('c', (g.MonoSignal, 'mono.wav'), (g.MultiSignal, 'multi.wav'), (g.AmbiBSignal, 'ambi.wav'),
                 (g.MonoSignal, 'multi.wav'), (g.MultiSignal, 'mono.wav'))
    return f.from_file, (W.file(n),), dict(fs=W.par('fs', None, FS, 44100))


@op('cheap', 'files', 'load')
def load_sdm(W):
    return W.spa.io.load_sdm, (W.file(W.par('n', 'sdm.mat', 'sdm2.mat', 'h.mat')),), dict(init_nan=W.par('i', True, False))


@op('cheap', 'files', 'load')
def load_layout(W):
    return W.spa.io.load_layout, (W.file(W.par('n', 'layout.json', 'layout2.json')),), dict(
        listener_position=W.par('lp', None, W.val('lp', lambda r: np.array([.1, -.05, .02])), [.1, 0., 0.]), N_kernel=2)


@op('cheap', 'files', 'load', 'h5')
def load_sofa(W):
    return W.par('f', W.spa.io.load_sofa_hrirs, W.spa.io.load_sofa_data), (W.file('h.sofa'),), {}


@op('cheap', 'files', 'load', 'h5')
def sofa_to_sh(W):
    return W.spa.io.sofa_to_sh, (W.file('h.sofa'), W.par('N', 1, 2)), dict(sh_type=W.par('t', 'real', 'complex'))


@op('files', 'io', 'slow')
def get_default_hrirs(W):
    def f(*a):
        W.spa.io.get_default_hrirs(*a)
        return W.spa.io.load_hrirs(W.par('fs', 44100, 48000, 96000))
    return f, W.dirs(3), dict()


@Sg('cheap', 'own')
def own_apply(W):
    def f(v, w):
        s = World(W.spa, W.seed).mono()
        s.apply(np.add, v, w)
        m = World(W.spa, W.seed).multi()
        m.apply(np.multiply, v, w)
        return [s, m]
    return f, (W.arr('s40', W.n(40)), W.arr('t40', W.n(40))), {}


@Sg('cheap', 'own')
def own_resample(W):
    def f(v, fs):
        s = W.spa.sig.MonoSignal(v, FS)
        s.resample(fs)
        return s
    return f, (W.arr('s40', W.n(40)), W.par('fs', FS, 44100, 24000)), {}


@Sg('cheap', 'own')
def own_trim(W):
    def f(v):
        s = W.spa.sig.MonoSignal(v, FS)
        s.trim(W.par('a', 0, 3) / FS, W.par('b', 20, None, 70) and W.par('b', 20, None, 70) / FS, dur=W.par('d', None, 9 / FS))
        return s
    return f, (W.arr('s40', W.n(40)),), {}


@Sg('own')
def own_ctf_eq(W):
    def f(h):
        h = h.copy()
        h.apply_ctf_eq(mode=W.par('m', 'full', 'same'))
        return h
    def build(rng):
        azi, zen = to_sph(np.array(W.spa.grids.load_t_design(9)))
        l, r = rng.normal(size=(2, len(azi), 64)) * np.exp(-np.arange(64) / 6)
        return W.spa.sig.HRIRs(l, r, azi, zen, FS)
    return f, (W.obj('hrirs ctf', build),), {}


@Sg('cheap')
def indexing(W):
    return (lambda *o: [x[1] for x in o] + [len(x) for x in o]), (W.mono(), W.multi(), W.ambi(), W.hrirs()), {}


@Pr('cheap')
def half_sided_Hann(W):
    return W.spa.process.half_sided_Hann, (W.par('N', 4, 5, 9),), {}


@P('slow', 'files', 'long')
def render_binaural_loudspeaker_sdm_default(W):
    h = W.hull()
    g = W.arr('lsg', (W.n(6), h.npoints), lo=0.)
    return W.spa.parsa.render_binaural_loudspeaker_sdm, (W.arr('p6', W.n(6)), g, h, FS), dict(post_eq_func='default')


@D('cheap')
def setup_attributes(W):
    return (lambda h: [h, h.get_characteristic_order(), h.ambisonics_hull]), (W.hull(W.par('a', False, True)),), {}


# -------------------------------------------------------------------------------------------------- plot
def Pl(f):
    return op('plot', 'slow')(f)


@Pl
def plot_spectrum(W):
    return W.spa.plot.spectrum, (W.par('x', W.arr('s40', W.n(40)), [W.arr('s40', W.n(40)), W.arr('t40', W.n(40))]), FS), dict(
        scale_mag=W.par('m', True, False), **W.par('k', {}, dict(labels=['u', 'v'], smoothing_n=2)))


@Pl
def plot_freq_resp(W):
    return W.spa.plot.freq_resp, (W.val('freq', lambda r: np.linspace(20, 20000, W.n(40))), W.par('x', W.arr('a', W.n(40), lo=.1), [
        W.arr('a', W.n(40), lo=.1), W.arr('a2', W.n(40), lo=.1)])), dict(TODB=W.par('d', True, False), smoothing_n=W.par('n', None, 3),
                                                             labels=W.par('l', None, ['u', 'v'], ('u', 'v')), title=W.par('t', None, 'T'), ylim=W.par('y', 30, [-20, 10]),
        xlim=W.par('xl', (20, 24e3), [100, 9e3]))


@Pl
def plot_transfer_function(W):
    return W.spa.plot.transfer_function, (W.val('freq', lambda r: np.linspace(20, 20000, W.n(40))), W.arr('H', W.n(40), cplx=True)), dict(
        title=W.par('t', None, 'T'), xlim=W.par('x', (10, 25e3), [50, 9e3]))


@Pl
def plot_zeropole(W):
    return W.spa.plot.zeropole, (W.arr('zb', 3), W.arr('za', 3)), dict(zPlane=W.par('z', True, False), title=W.par('t', None, 'T'))


@Pl
def plot_compare_ambi(W):
    return W.spa.plot.compare_ambi, (W.ambi(60), W.ambi(61)), {}


@Pl
def plot_spherical_function(W):
    return W.spa.plot.spherical_function, (W.arr('f', 30), *W.dirs(30)), dict(title=W.par('t', None, 'T'))


@Pl
def plot_sh_coeffs(W):
    return W.spa.plot.sh_coeffs, (W.arr('F4', 4, cplx=W.par('c', False, True)),), dict(azi_steps=30, el_steps=30,
        title=W.par('t', None, 'T'), sh_type=W.par('st', None, 'real'), cbar=W.par('cb', True, False))


@Pl
def plot_sh_coeffs_subplot(W):
    return W.spa.plot.sh_coeffs_subplot, ([W.arr('F4', 4), W.arr('G4', 4)],), dict(azi_steps=30, el_steps=30,
        titles=W.par('t', None, ['u', 'v']), cbar=W.par('cb', True, False))


@Pl
def plot_sh_coeffs_overlay(W):
    return W.spa.plot.sh_coeffs_overlay, ([W.arr('F4', 4), W.arr('G4', 4)],), dict(azi_steps=30, el_steps=30,
        title=W.par('t', None, 'T'))


@Pl
def plot_sh_rms_map(W):
    return W.spa.plot.sh_rms_map, (W.par('F', W.arr('F', (4, W.n(5))), W.arr('Fl', (4, 5000))),), dict(
        clim=W.par('cl', (None, None), [0, 1]), title=W.par('t', None, 'T'), TODB=W.par('d', True, False), n_plot=4,
                                                            w_n=W.par('w', None, W.arr('w2', 2, lo=.1)))


@Pl
def plot_spherical_function_map(W):
    return W.spa.plot.spherical_function_map, (W.arr('f20', W.n(20)), *W.dirs(W.n(20))), dict(
        TODB=W.par('d', True, False), clim=W.par('cl', (None, None), [0, 1]), title=W.par('t', None, 'T'))


@Pl
def plot_sh_bar(W):
    return W.spa.plot.sh_bar, (W.par('x', W.arr('xnm', (4, 9)), W.arr('ynm', (2, 4))),), dict(
        TODB=W.par('d', True, False), centered=W.par('c', True, False), num_groups=W.par('g', 1, 2),
        clim=W.par('cl', None, [-1, 1], (-1, 1)), xticklabels=W.par('xt', None, list('abcd')), title=W.par('t', None, 'T'))


@Pl
def plot_hull(W):
    h = W.par('h', W.hull(), W.hull(), W.open_hull())
    return W.spa.plot.hull, (h,), dict(simplices=W.par('s', None, W.get('pvs', lambda r: np.array(h.simplices)[:5])),
                                       color=W.par('c', None, W.arr('col', len(h.simplices), lo=0.)),
                                       ax_lim=W.par('l', None, 2), clim=W.par('cl', None, [0, 1]), draw_ls=W.par('dl', True, False),
                                       mark_invalid=W.par('mi', True, False), title=W.par('t', None, 'T'))


@Pl
def plot_hull_normals(W):
    return W.spa.plot.hull_normals, (W.hull(),), dict(plot_face_normals=W.par('f', True, False),
                                                      plot_vertex_normals=W.par('v', True, False))


@Pl
def plot_polar(W):
    return W.spa.plot.polar, (W.val('th', lambda r: np.linspace(0, 6, 30)), W.arr('pr', 30)), dict(
        TODB=W.par('d', True, False), rlim=W.par('rl', None, [-30, 5]), title=W.par('t', None, 'T'))


@Pl
def plot_decoder_performance(W):
    t = W.par('t', 'VBAP', 'VBIP', 'NLS', 'ALLRAP', 'ALLRAP2', 'SAD', 'MAD', 'EPAD', 'ALLRAD', 'ALLRAD2')
    k = dict(N_sph=1) if t.endswith('D') or t.endswith('D2') else {}
    return W.spa.plot.decoder_performance, (W.hull(True), t), dict(azi_steps=60, ele_steps=60, title=W.par('ti', None, 'T'),
                                                                   show_ls=W.par('sl', True, False), **W.par('k', {}, k))


@Pl
def plot_doa(W):
    return W.spa.plot.doa, (*W.dirs(W.n(12)), W.par('p', None, W.arr('p', W.n(12)))), dict(
        fs=W.par('f', None, FS), size=W.par('s', 250, W.arr('sz', W.n(12), lo=1.)), ltitle=W.par('lt', None, 'p'),
        title=W.par('t', None, 'T'), c=W.par('c', None, W.arr('cc', W.n(12))),
        alpha=W.par('al', None, W.val('alp', lambda r: r.uniform(.1, .9, W.n(12)))))


@Pl
def plot_on_axis(W):
    import matplotlib.pyplot as plt
    p = W.spa.plot
    f, a, k, proj = W.par(
        'f', (p.freq_resp, (W.val('freq', lambda r: np.linspace(20, 20000, W.n(40))), [W.arr('a', W.n(40), lo=.1)]),
              dict(labels=['u'], smoothing_n=3), None),
        (p.polar, (W.val('th', lambda r: np.linspace(0, 6, 30)), W.arr('pr', 30)), {}, 'polar'),
        (p.sh_coeffs, (W.arr('F4', 4),), dict(azi_steps=30, el_steps=30), '3d'),
        (p.spherical_function, (W.arr('f', 30), *W.dirs(30)), {}, '3d'), (p.hull, (W.hull(),), {}, '3d'),
        (p.sh_rms_map, (W.arr('F', (4, W.n(5))),), dict(n_plot=4), None),
        (p.spherical_function_map, (W.arr('f20', W.n(20)), *W.dirs(W.n(20))), {}, None),
        (p.sh_bar, (W.arr('xnm', (4, 9)),), dict(clim=[-1, 1]), None),
        (p.doa, W.dirs(W.n(12)), {}, None))
    return (lambda *a, **k: f(*a, ax=plt.figure().add_subplot(projection=proj), **k)), a, k


@Pl
def plot_aspect(W):
    import matplotlib.pyplot as plt
    return (lambda lim: W.spa.plot.set_aspect_equal3d(plt.figure().add_subplot(projection='3d'), lim)), (
        W.par('l', None, [-1, 2]),), {}


@Pl
def plot_hrirs_ild_itd(W):
    return W.spa.plot.hrirs_ild_itd, (W.hrirs(14, 64),), dict(plevels=5, pclims=W.par('pc', (None, None), [20, .75]),
                                                              title=W.par('t', None, 'T'))


CHEAP = sorted(k for k, (f, t) in OPS.items() if 'cheap' in t)
ALL = sorted(OPS)


# ================================================================================================== looking from outside
HULL_ATTRS = ['x', 'y', 'z', 'd', 'a', 'points', 'npoints', 'nsimplex', 'vertices', 'simplices', 'valid_simplices',
              'centroids', 'face_areas', 'face_normals', 'vertex_normals', 'barycenter', 'ls_gains', 'listener_position',
              'characteristic_order', 'imaginary_ls_idx']


def view(x, spa, deep=0):
    """Plain nested description of an argument or a result, as a user can see it (copies all data)."""
    if isinstance(x, (str, bytes, int, float, complex, bool, type(None), np.generic)):
        return ('val', type(x).__name__ if isinstance(x, np.generic) else '', x)
    if isinstance(x, np.ndarray):
        return np.array(np.ndarray.view(x, np.ndarray))
    if isinstance(x, (list, tuple)):
        return [view(v, spa, deep) for v in x]
    if isinstance(x, dict):
        return {str(k): view(v, spa, deep) for k, v in sorted(x.items(), key=lambda i: str(i[0]))}
    if isinstance(x, spa.sig.HRIRs):
        return {k: view(getattr(x, k), spa) for k in ('left', 'right', 'azi', 'zen', 'fs', 'num_grid_points',
                                                      'num_samples')}
    if isinstance(x, spa.sig.MultiSignal):
        return {'type': type(x).__name__, 'channels': [view(c.signal, spa) for c in x.channels], 'fs': view(x.fs, spa),
                'cfs': [view(c.fs, spa) for c in x.channels]}
    if isinstance(x, spa.sig.MonoSignal):
        return {'type': type(x).__name__, 'signal': view(x.signal, spa), 'fs': view(x.fs, spa)}
    if isinstance(x, spa.decoder.LoudspeakerSetup):
        d = {k: view(getattr(x, k, None), spa) for k in HULL_ATTRS}
        a = getattr(x, 'ambisonics_hull', None)
        d['ambisonics_hull'] = view(a, spa, deep + 1) if a and deep == 0 else None
        k = getattr(x, 'kernel_hull', None)
        d['kernel_hull'] = view(k, spa, deep + 1) if k and deep == 0 else None
        return d
    if hasattr(x, 'simplices') and hasattr(x, 'points'):
        return {'points': view(x.points, spa), 'simplices': view(x.simplices, spa)}
    return ('other', type(x).__name__)


def arrays(x, spa, out=None):
    """The numpy arrays a user can reach from an argument or result."""
    if out is None:
        out = []
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for v in x:
            arrays(v, spa, out)
    elif isinstance(x, dict):
        for v in x.values():
            arrays(v, spa, out)
    elif isinstance(x, spa.sig.HRIRs):
        arrays([x.left, x.right, x.azi, x.zen], spa, out)
    elif isinstance(x, spa.sig.MultiSignal):
        arrays([c.signal for c in x.channels], spa, out)
    elif isinstance(x, spa.sig.MonoSignal):
        arrays(x.signal, spa, out)
    elif isinstance(x, spa.decoder.LoudspeakerSetup):
        arrays([getattr(x, k, None) for k in HULL_ATTRS], spa, out)
        for k in ('ambisonics_hull', 'kernel_hull'):
            v = getattr(x, k, None)
            if v:
                arrays(v, spa, out)
    elif hasattr(x, 'simplices') and hasattr(x, 'points'):
        arrays([x.points, x.simplices], spa, out)
    return out


def same(a, b, path=''):
    """None if two views are identical (bit for bit, NaN included), else where they differ."""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.dtype != b.dtype or a.shape != b.shape:
            return '%s: %s%s became %s%s' % (path, a.dtype, a.shape, b.dtype, b.shape)
        if a.dtype.kind == 'O':
            return None if repr(a) == repr(b) else '%s changed' % path
        if a.tobytes() != b.tobytes():
            x, y = a.ravel(), b.ravel()
            i = next((j for j in range(len(x)) if x[j].tobytes() != y[j].tobytes()), 0)
            return '%s: element %s changed from %r to %r' % (path, np.unravel_index(i, a.shape), x[i], y[i])
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return '%s: entries %s became %s' % (path, list(a), list(b))
        for k in a:
            d = same(a[k], b[k], '%s.%s' % (path, k))
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: %d entries became %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if type(a) != type(b):
        return '%s: %r became %r' % (path, a, b)
    if isinstance(a, tuple):
        if repr(a) != repr(b):
            return '%s: %r became %r' % (path, a[-1], b[-1])
        return None
    return None if repr(a) == repr(b) else '%s: %r became %r' % (path, a, b)


def close(a, b, rtol=1e-9, path=''):
    """None if two views of results agree up to rounding."""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 3 and a[0] == b[0] == 'val':
        return diff(a[2], b[2], rtol, rtol * 1e-2, path)
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return '%s.%s missing' % (path, k)
            d = close(a[k], b[k], rtol, '%s.%s' % (path, k))
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: %d entries instead of %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = close(x, y, rtol, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return diff(a, b, rtol, rtol * 1e-2, path)
    return None if repr(a) == repr(b) else '%s: %r instead of %r' % (path, a, b)


def prepare_files(W):
    """Files some calls read: the default HRIR cache and a filter file."""
    import pickle
    from scipy.io import savemat
    d = os.path.join(simfs.root(), 'checkout', 'data', 'HRIRs')
    os.makedirs(d, exist_ok=True)
    r = rng_of(99)
    azi, zen = to_sph(sphere_points(r, 9))
    savemat(os.path.join(d, 'HRIRs_default_%d.mat' % FS), dict(hrir_l=r.normal(size=(9, 8)), hrir_r=r.normal(size=(9, 8)),
                                                              azi=azi, zen=zen, fs=FS))
    savemat(W.file('h.mat'), dict(hrir_l=r.normal(size=(6, 8)), hrir_r=r.normal(size=(6, 8)), azi=azi[:6], zen=zen[:6], fs=FS))
    sdm = dict(h_ref=r.normal(size=12), sdm_azi=r.normal(size=12), sdm_zen=np.abs(r.normal(size=12)), fs=FS)
    sdm['sdm_azi'][[2, 7]] = sdm['sdm_zen'][[2, 7]] = np.nan
    savemat(W.file('sdm.mat'), sdm)
    savemat(W.file('sdm2.mat'), dict(p=r.normal(size=9), sdm_phi=r.normal(size=9), sdm_theta=np.abs(r.normal(size=9)), fs=44100))
    import soundfile
    for name, c, fs in (('mono', 1, FS), ('multi', 3, FS), ('ambi', 4, FS), ('other', 1, 44100)):
        x = r.normal(size=(21, c)) * .2
        soundfile.write(W.file(name + '.wav'), x if c > 1 else x[:, 0], fs, subtype='DOUBLE')
    import json
    import h5py
    pts = setup_points(rng_of(5), 'cube')
    pts = np.vstack([pts, [[.1, 0, -1.6], [0, .2, 1.7]]])
    ent = []
    for i, q in enumerate(pts):
        e = dict(Azimuth=round(float(np.rad2deg(np.arctan2(q[1], q[0]))), 2), Radius=round(float(np.linalg.norm(q)), 2),
                 Elevation=round(float(np.rad2deg(np.arcsin(q[2] / np.linalg.norm(q)))), 2), IsImaginary=i > 7, Channel=i + 1,
                 Gain=.5 + .1 * i)
        ent.append(e)
    for name, drop in (('layout', ()), ('layout2', ('Gain',))):
        with open(W.file(name + '.json'), 'w') as f:
            json.dump(dict(Name='n', Description='d', LoudspeakerLayout=dict(Name='n', Loudspeakers=[
                {k: v for k, v in e.items() if k not in drop} for e in ent])), f)
    with h5py.File(W.file('h.sofa'), 'w') as f:
        f['Data.SamplingRate'] = np.array([float(FS)])
        f['Data.IR'] = r.normal(size=(9, 2, 8))
        f['SourcePosition'] = np.c_[np.rad2deg(azi) % 360, 90 - np.rad2deg(zen), np.full(9, 1.2)]
    savemat(os.path.join(d, 'HRIRs_default_44100.mat'), dict(hrir_l=r.normal(size=(9, 8)), hrir_r=r.normal(size=(9, 8)),
                                                             azi=azi, zen=zen, fs=44100))
    d = os.path.join(d, 'FABIAN', 'SphericalHarmonics')
    os.makedirs(d, exist_ok=True)
    z = r.normal(size=(2, 4, 33)) + 1j * r.normal(size=(2, 4, 33))
    savemat(os.path.join(d, 'FABIAN_DIR_measured_HATO_0.mat'), dict(SH=dict(
        coeffLeft=z[0], coeffRight=z[1], order=1, a=0., b=0., f=np.linspace(0, 22050, 33)), SamplingRate=44100))
    with open(W.file('coeffs.pkl'), 'wb') as f:
        pickle.dump((np.array([1., .2]), np.array([1., -.3]), np.array([.9, .1]), np.array([1., .1])), f)
