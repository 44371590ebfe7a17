"""C04: resampled HRIR sets keep every direction and ear in place, for every job count and schedule."""
from .common import *

KINDS = [None, None, None, 'quiet', 'loud', 'mixed', 'silent', 'twins', 'ears', 'repeat', 'pulse', 'float32', 'fortran', 'int']


def responses(rng, g, taps, kind):
    x = rng.normal(size=(2, g, taps))
    if kind == 'quiet':
        x = x * 1e-10
    elif kind == 'loud':
        x = x * 1e8
    elif kind == 'mixed':                        # levels from inaudible to loud next to each other
        x = x * 10. ** rng.integers(-9, 3, size=(2, g, 1))
    elif kind == 'silent':                       # no response at some directions
        x[rng.random((2, g)) < .4] = 0
    elif kind == 'twins':                        # neighbours that hardly differ
        x[:, 1:] = x[:, :1] + 1e-7 * x[:, 1:]
    elif kind == 'ears':                         # ears that hardly differ
        x[1] = x[0] + 1e-7 * x[1]
    elif kind == 'repeat':
        x[:, :] = x[:, rng.integers(g, size=g)]
    elif kind == 'pulse':
        x = np.zeros_like(x)
        x[:, np.arange(g), rng.integers(taps, size=g)] = 1.
    elif kind == 'float32':
        x = x.astype(np.float32)
    elif kind == 'int':
        x = np.round(x * 100).astype(int).astype(float)
    return tuple(np.asfortranarray(a) if kind == 'fortran' else a for a in x)


class C04(Check):
    id = 'C04'
    needs = ('resampy',)

    def scenario(self, rng):
        fs = rng.choice([44100, 44100, 48000, 96000, 22050])
        big = rng.random() < .03
        return dict(g=rng.choice([1, 2, 3, 5, 7, 9, 12, 17, 33] if not big else [80, 150]), taps=rng.choice(
                    [16, 24, 33, 64] if not big else [128, 512]), fs=fs,
                    target=rng.choice([f for f in (48000, 96000, 44100, 32000)] + [fs]), jobs=jobs_choice(rng),
                    cpu=rng.randint(1, 6), method=rng.choice(METHODS), seed=rng.randrange(10 ** 6),
                    calls=rng.choice([1, 1, 2]), none_is_one=rng.random() < 0.15, kind=rng.choice(KINDS))

    def shrink(self, scn):
        return shrink_ints(scn, dict(calls=1, g=1, taps=16, jobs=2, cpu=1))

    def nontrivial(self, scn, faults, res):
        return scn['g'] > 1 and res['switches'] > 2

    def execute(self, scn, faults, strategy, out):
        import resampy
        with simenv(scn, faults, strategy) as sim:
            out['sim'] = sim
            spa = sim.load_main()
            res = []
            for c in range(scn['calls']):
                rng = rng_of(scn['seed'] + 7 * c)
                g = scn['g'] + c
                l, r = responses(rng, g, scn['taps'], scn['kind'])
                fs, t = scn['fs'], scn['target']
                if c and rng.random() < 0.3:
                    t = fs
                jobs = 1 if scn['none_is_one'] else scn['jobs']
                o = call(spa.process.resample_hrirs, l.copy('K'), r.copy('K'), fs, t, jobs_count=jobs)
                if not o.ok:
                    return violation('no-result', 'resample_hrirs(%d -> %d, jobs_count=%r): %r' % (fs, t, jobs, o))
                gl, gr, gfs = o.value
                if gfs != t:
                    return violation('rate', 'resample_hrirs to %d reports %r' % (t, gfs))
                if t == fs:
                    want = (l, r)
                else:
                    want = tuple(np.array([resampy.resample(row, fs, t) for row in x]) for x in (l, r))
                for ear, got, w in (('left', gl, want[0]), ('right', gr, want[1])):
                    # every direction by its own level
                    top = np.max(np.abs(w), axis=1, keepdims=True)
                    top[top == 0] = 1
                    got = plain(got)
                    if np.shape(got) == w.shape:
                        got, w = got / top, w / top
                    d = diff(got, w, *((1e-5, 1e-5) if scn['kind'] == 'float32' else (1e-8,)))
                    if d:
                        return violation('wrong', 'resample_hrirs(%d -> %d, jobs %r, %s): %s ear %s'
                                         % (fs, t, jobs, scn['method'], ear, d))
                res.append(want)
            out['digest'] = digest(res)
            out['cover'] = {'method ' + scn['method']: 1, 'same rate' if scn['fs'] == scn['target'] else 'resampled': 1}
        return None


CHECK = C04()
