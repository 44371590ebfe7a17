"""C02: pseudo-intensity is the same, sample for sample, for every job count and schedule."""
from .common import *


KINDS = [None, None, None, 'quiet', 'loud', 'burst', 'decay', 'axis', 'plane', 'dc', 'float32', 'zeros']


def field(rng, n, kind):
    x = rng.normal(size=(4, n))
    if kind == 'quiet':
        x *= 1e-8
    elif kind == 'loud':
        x *= 1e7
    elif kind == 'burst':                        # quiet passages next to loud ones
        x *= 10. ** np.repeat(rng.integers(-5, 2, size=n), 4)[:n]
    elif kind == 'decay':
        x *= 10. ** (-5 * np.arange(n) / n)
    elif kind == 'axis':
        x[rng.choice([1, 2, 3], 2, replace=False)] = 0
    elif kind == 'plane':                        # one plane wave
        x[1:] = x[0] * rng.normal(size=(3, 1))
    elif kind == 'dc':
        x += 5
    elif kind == 'float32':
        x = x.astype(np.float32)
    elif kind == 'zeros':
        x[:, n // 3:] = 0
    return x


class C02(Check):
    id = 'C02'

    def scenario(self, rng):
        win = rng.choice([3, 3, 5, 7, 9, 33])
        f = rng.random() < 0.25
        n = win + rng.choice([0, 1, 2, 3, 6, 12, 25, 40])
        if f:
            n = max(n, 20)
        big = rng.random() < .03
        if big:
            n = win + rng.choice([150, 500, 1100])
        return dict(win=win, n=n, smooth=rng.choice([0, 0, 1, 3, 5]), f_bp=f, jobs=jobs_choice(rng),
                    cpu=rng.randint(1, 6), method=rng.choice(METHODS), seed=rng.randrange(10 ** 6),
                    calls=rng.choice([1, 1, 2]), kind=rng.choice(KINDS),
                    trace='line' if rng.random() < 0.12 and not big else None)

    def shrink(self, scn):
        return shrink_ints(scn, dict(calls=1, n=scn['win'] if not scn['f_bp'] else 20, jobs=2, cpu=1, smooth=0))

    def nontrivial(self, scn, faults, res):
        return scn['n'] > scn['win'] + 1 and res['switches'] > 2

    def execute(self, scn, faults, strategy, out):
        with simenv(scn, faults, strategy, trace=scn['trace']) as sim:
            out['sim'] = sim
            spa = sim.load_main()
            res = []
            for c in range(scn['calls']):
                rng = rng_of(scn['seed'] + 7 * c)
                n = scn['n'] + 2 * c
                x = field(rng, n, scn['kind'])
                k = dict(win_len=scn['win'], smoothing_order=scn['smooth'],
                         f_bp=(2000, 9000) if scn['f_bp'] else None)
                mk = lambda: spa.sig.AmbiBSignal([r.copy() for r in x], fs=44100)
                got = call(spa.parsa.pseudo_intensity, mk(), jobs_count=scn['jobs'], **k)
                want = call(spa.parsa.pseudo_intensity, mk(), jobs_count=1, **k)
                if got.ok != want.ok:
                    return violation('no-result', 'pseudo_intensity(jobs_count=%r, %s): %r, sequentially: %r'
                                     % (scn['jobs'], k, got, want))
                if not want.ok:
                    continue
                # angles of vanishing vectors are rounding artefacts: compare vectors
                def vec(v):
                    a, z, r = [np.asarray(plain(q), float) for q in v]
                    return unit(a, z) * r[:, None], r
                gv, gr = vec(got.value)
                wv, wr = vec(want.value)
                d = None
                if gv.shape != wv.shape:
                    d = 'shape %s instead of %s' % (gv.shape, wv.shape)
                else:                            # every sample by its own level
                    tol = (1e-3 if scn['kind'] == 'float32' else 1e-7) * wr + 1e-13 * wr.max()
                    bad = np.argwhere(~(np.abs(gv - wv).max(axis=1) <= tol) | ~(np.abs(gr - wr) <= tol))
                    if bad.size:
                        d = 'sample %d: %s instead of %s' % (bad[0][0], gv[bad[0][0]], wv[bad[0][0]])
                if d:
                    d = 'differs in ' + d
                else:
                    big = wr > 1e-6 * max(1e-30, wr.max())
                    for i, name in enumerate(('azimuth', 'zenith')):
                        a, b = np.asarray(plain(got.value[i])), np.asarray(plain(want.value[i]))
                        use = big & (np.hypot(wv[:, 0], wv[:, 1]) > 1e-3 * wr)
                        if a.shape != b.shape:
                            d = '%s: shape %s instead of %s' % (name, a.shape, b.shape)
                        elif not np.allclose(np.exp(1j * a[use]), np.exp(1j * b[use]), atol=1e-5):
                            d = '%s differs' % name
                if d:
                    return violation('differs', 'pseudo_intensity with jobs %r (%s, %d CPUs, %s, %d samples) %s from '
                                     'the sequential result' % (scn['jobs'], scn['method'], scn['cpu'], k, n, d))
                res.append(wv)
                if c == 0:
                    first = (got.value, [plain(q) for q in got.value])
            if res:
                d = diff([plain(q) for q in first[0]], first[1])
                if d:
                    return violation('aliased', 'earlier result changed after a later call: %s' % d)
            out['digest'] = digest(res)
            out['cover'] = {'method ' + scn['method']: 1, 'win %d' % scn['win']: 1}
        return None


CHECK = C02()
