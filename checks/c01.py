"""C01: panning and All-Round decoding give the same numbers for every job count, start method and schedule."""
from .common import *

OPS = ['vbap', 'vbap', 'vbap', 'vbip', 'vbip', 'allrap', 'allrap2', 'allrad', 'allrad2']


class C01(Check):
    id = 'C01'

    def scenario(self, rng):
        op = rng.choice(OPS)
        big = rng.random() < .03
        scn = dict(op=op, n=rng.choice([1, 3, 9, 10, 11, 12, 16, 25, 40]) if not big else rng.choice([100, 257, 600]), jobs=jobs_choice(rng, 7),
                    cpu=rng.randint(1, 6), method=rng.choice(METHODS), seed=rng.randrange(10 ** 6),
                    kind=rng.choice(['cube', 'octa', 'ico', 'random', 'ring', 'dome']), calls=rng.choice([1, 1, 2]),
                    norm=rng.choice([2, 2, 1, 3]), pop=rng.random() < 0.4, retain=rng.random() < 0.25,
                    subset=rng.random() < 0.2, a=rng.choice([1, 1, 0, 2]), order=rng.choice([None, 1, 2, 3]),
                    kernel=rng.choice([2, 3, 4]), hard=rng.random() < 0.3,
                    trace='line' if rng.random() < 0.12 else None, as_list=rng.random() < 0.1,
                    level=rng.choice([None] * 5 + ['far', 'mixed', 'zero']))
        if big:
            scn.update(trace=None, calls=1, kernel=rng.choice([3, 8, 15]))
        return scn

    def shrink(self, scn):
        return shrink_ints(scn, dict(calls=1, n=1, jobs=2, cpu=1, kernel=2))

    def nontrivial(self, scn, faults, res):
        return res['procs'] > 1 and res['switches'] > 2

    def setup_of(self, spa, scn, rng):
        pts = setup_points(rng, None if scn['kind'] == 'dome' else scn['kind'])
        if scn['kind'] == 'dome':
            pts = pts[pts[:, 2] > -0.3]
            if len(pts) < 5:
                pts = setup_points(rng, 'ring')
        h = spa.decoder.LoudspeakerSetup(*[c.copy() for c in pts.T])
        if scn['pop']:
            h.pop_triangles(normal_limit=85, aperture_limit=110, opening_limit=150)
        h.a = scn['a']
        if scn['op'].startswith('all') or scn['retain']:
            k = dict(N_kernel=scn['kernel'], characteristic_order=scn['order'] or 2)
            try:
                h.ambisonics_setup(update_hull=True, **k)
            except RuntimeError:            # closed hull: nothing to add
                if scn['retain']:
                    h.ambisonics_setup(update_hull=True, imaginary_ls=[[0, 0, -1.3]], **k)
                else:
                    h.ambisonics_setup(update_hull=False, **k)
        return h

    def sources(self, rng, h, n, hard, level):
        src = sphere_points(rng, n) * (0.5 + rng.random((n, 1)))
        if hard:
            # on loudspeakers, on edges, on centroids
            pts = np.asarray(h.points)
            for i in range(0, n, 3):
                k = rng.integers(3)
                s = h.simplices[rng.integers(len(h.simplices))]
                src[i] = pts[s[0]] if k == 0 else pts[s[0]] + pts[s[1]] if k == 1 else pts[s].mean(axis=0)
        if level == 'far':
            src *= 1e5
        elif level == 'mixed':
            src *= 10. ** rng.integers(-5, 6, size=(n, 1))
        elif level == 'zero':
            src[rng.integers(n)] = 0
        return src

    def execute(self, scn, faults, strategy, out):
        op = scn['op']
        # two processes of the simulated machine, each with its own setups: this one asks for jobs, the other does not
        with simenv(scn, faults, strategy, trace=scn['trace']) as sim:
            out['sim'] = sim
            sim.env['poison'] = float('nan')
            spa = sim.load_main()
            dec = spa.decoder
            kept = []
            digests = []
            shared = self.setup_of(spa, scn, rng_of(scn['seed']))
            for c in range(scn['calls']):
                rng = rng_of(scn['seed'] + 17 * c + 1)
                hp = shared
                hs = self.setup_of(spa, scn, rng_of(scn['seed']))
                n = scn['n'] + 3 * c
                k = {}
                if op in ('vbap', 'vbip'):
                    x = self.sources(rng, hs, n, scn['hard'], scn['level'])
                    k['norm'] = scn['norm']
                    if scn['retain']:
                        k['retain_outside'] = True
                    elif scn['subset']:
                        v = np.array(hs.valid_simplices)
                        k['valid_simplices'] = v[rng.permutation(len(v))[:max(1, len(v) - 2)]]
                elif op.startswith('allrap'):
                    x = self.sources(rng, hs, n, scn['hard'], scn['level'])
                    if scn['order']:
                        k['N_sph'] = scn['order']
                else:
                    N = scn['order'] or 2
                    x = rng.normal(size=((N + 1) ** 2, n))
                    if scn['level'] == 'mixed':
                        x *= 10. ** rng.integers(-5, 6, size=n)
                f = getattr(dec, op)
                arg = x.copy()
                if scn['as_list'] and op == 'vbap':
                    arg = [list(map(float, r)) for r in x]
                got = call(f, arg, hp, jobs_count=scn['jobs'], **k)
                want = call(f, x.copy(), hs, jobs_count=1, **k)
                if not want.ok:
                    if got.ok:
                        return violation('only-parallel', '%s fails sequentially (%r) but not with jobs %r'
                                         % (op, want, scn['jobs']))
                    continue
                if not got.ok:
                    return violation('no-result', '%s(jobs_count=%r) on %d columns/rows: %r, sequentially it returns'
                                     % (op, scn['jobs'], n, got))
                w = plain(want.value)
                d = diff(plain(got.value), w)
                if d:
                    return violation('differs', '%s with jobs %r (%s, %d CPUs) %s from the sequential result'
                                     % (op, scn['jobs'], scn['method'], scn['cpu'], d))
                if op in ('vbap', 'vbip', 'allrap', 'allrap2'):
                    if w.shape[0] != n or w.shape[1] != len(hs.points):
                        return violation('shape', '%s of %d sources on %d loudspeakers has shape %s'
                                         % (op, n, len(hs.points), w.shape))
                    for i in sorted(set(int(v) for v in rng.integers(n, size=3))):
                        one = call(f, x[i].copy(), hs, jobs_count=1, **k)
                        if not one.ok:
                            return violation('single', '%s of source %d alone: %r' % (op, i, one))
                        d = diff(plain(one.value)[0], w[i])
                        if d:
                            return violation('row', '%s row %d is not the gain of source %d: %s' % (op, i, i, d))
                kept.append((got.value, w, op))
                digests.append(w)
            for v, w, o in kept:
                d = diff(plain(v), w)
                if d:
                    return violation('aliased', 'result of %s changed after later calls: %s' % (o, d))
            out['cover'] = {'op ' + op: 1, 'method ' + scn['method']: 1,
                            'pool used' if len(sim.procs) > 1 else 'no pool': 1}
            out['digest'] = digest(digests)
        return None


CHECK = C01()
