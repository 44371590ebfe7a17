"""C03: the parallel BSDM rendering equals the sequential overlap-add, for every schedule."""
from .common import *


KINDS = [None, None, None, 'quiet', 'loud', 'mixed', 'silent', 'decay', 'pulse', 'integers', 'same', 'ears', 'float32']


def pressures(rng, n, kind):
    p = rng.normal(size=n)
    if kind == 'quiet':
        p = p * 1e-9
    elif kind == 'loud':
        p = p * 1e7
    elif kind == 'mixed':                        # weak samples next to strong ones
        p = p * 10. ** rng.integers(-6, 3, size=n)
    elif kind == 'decay':
        p = p * 10. ** (-7. * np.arange(n) / n)
    elif kind == 'silent':
        p[rng.random(n) < .5] = 0
    elif kind == 'pulse':
        p = np.zeros(n)
        p[rng.integers(n)] = -1.
    elif kind == 'integers':
        p = np.round(3 * p)
    return p


class C03(Check):
    id = 'C03'

    def scenario(self, rng):
        r = rng.random()
        big = rng.random() < .03
        if big:
            r = 1
        return dict(n=rng.choice([1, 2, 3, 4, 5, 8, 13, 24] if not big else [150, 500]), g=rng.choice([1, 2, 5, 9]),
                    taps=rng.choice([1, 2, 3, 5, 8] if not big else [64, 300]), jobs=jobs_choice(rng), cpu=rng.randint(1, 6),
                    method=rng.choice(METHODS), seed=rng.randrange(10 ** 6), calls=rng.choice([1, 1, 2]),
                    lists=rng.random() < 0.3, trace='line' if r < 0.15 else None, maxwork=rng.random() < 0.2, kind=rng.choice(KINDS))

    def shrink(self, scn):
        return shrink_ints(scn, dict(calls=1, n=1, g=1, taps=1, jobs=2, cpu=1))

    def nontrivial(self, scn, faults, res):
        return scn['n'] > 1 and res['switches'] > 2

    def execute(self, scn, faults, strategy, out):
        with simenv(scn, faults, strategy, trace=scn['trace']) as sim:
            out['sim'] = sim
            spa = sim.load_main()
            results = []
            for c in range(scn['calls']):
                rng = rng_of(scn['seed'] + 7 * c)
                n = scn['n'] + c
                h = hrir_data(rng, scn['g'], scn['taps'])
                p = pressures(rng, n, scn['kind'])
                if scn['kind'] == 'ears':
                    h['right'] = h['left'] + 1e-6 * h['right']
                elif scn['kind'] == 'float32':
                    h['left'], h['right'] = (x.astype(np.float32).astype(float) for x in (h['left'], h['right']))
                phi, theta = to_sph(sphere_points(rng, n))
                if scn['kind'] == 'same':        # one direction for all samples
                    phi[:], theta[:] = phi[0], theta[0]
                elif scn['kind'] == 'integers':  # any number of turns
                    phi = phi + 2 * np.pi * rng.integers(-1, 2, size=n)
                hr = spa.sig.HRIRs(h['left'].copy(), h['right'].copy(), h['azi'].copy(), h['zen'].copy(), 44100)
                idx, margin = nearest(phi, theta, h['azi'], h['zen'])
                if margin < 1e-9:
                    continue
                want_l = np.zeros(n + scn['taps'] - 1)
                want_r = np.zeros_like(want_l)
                terms = dict(left=np.zeros_like(want_l), right=np.zeros_like(want_l))
                for i in range(n):
                    for ear in terms:
                        terms[ear][i:i + scn['taps']] += np.abs(p[i] * h[ear][idx[i]])
                    want_l[i:i + scn['taps']] += p[i] * h['left'][idx[i]]
                    want_r[i:i + scn['taps']] += p[i] * h['right'][idx[i]]
                args = (p, phi, theta)
                if scn['lists']:
                    args = tuple(list(map(float, a)) for a in args)
                o = call(spa.parsa.render_bsdm, *args, hr, jobs_count=scn['jobs'])
                if not o.ok:
                    return violation('no-result', 'render_bsdm(jobs_count=%r) on %d samples: %r'
                                     % (scn['jobs'], n, o))
                l, r = o.value
                for ear, got, want in (('left', l, want_l), ('right', r, want_r)):
                    got, want = np.asarray(plain(got)), np.asarray(want)
                    if got.shape != want.shape:
                        d = 'shape %s instead of %s' % (got.shape, want.shape)
                    else:                # every output sample by the size of the terms that add up to it
                        size = terms[ear] * 1e-9 + 1e-13 * np.max(terms[ear])
                        bad = np.argwhere(~(np.abs(got - want) <= size))
                        d = bad.size and 'at sample %d: %r instead of %r' % (
                            bad[0][0], got[tuple(bad[0])], want[tuple(bad[0])])
                    if d:
                        return violation('wrong-ir', '%s ear differs from the sequential overlap-add %s (jobs %r, %s, '
                                         '%d CPUs)' % (ear, d, scn['jobs'], scn['method'], scn['cpu']))
                results.append((want_l, want_r))
            out['cover'] = {'method ' + scn['method']: 1, 'tracing' if scn['trace'] else 'no tracing': 1}
            out['digest'] = digest(results)
        return None


CHECK = C03()
