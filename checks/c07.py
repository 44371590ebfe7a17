"""C07: answers of a loudspeaker setup depend on its current configuration only, after any history."""
import copy
import io as _io
from .common import *
from simkit import fs as simfs
import os

LIMITS = [dict(normal_limit=85, aperture_limit=90, opening_limit=150), dict(normal_limit=60), dict(normal_limit=None),
          dict(normal_limit=None, aperture_limit=80), dict(normal_limit=85, blacklist=[0, 1]),
          dict(normal_limit=None, blacklist=[2, 3, 4]), dict(normal_limit=None, opening_limit=100), dict()]


def make(spa, scn):
    rng = rng_of(scn['seed'])
    if scn['kind'] == 'dome':
        m, n = 5 + int(rng.integers(4)), 3 + int(rng.integers(3))
        azi = np.r_[np.arange(m) * 2 * np.pi / m, np.arange(n) * 2 * np.pi / n + 0.3]
        zen = np.deg2rad(np.r_[np.full(m, 100.), np.full(n, 45.)])
        pts = unit(azi + rng.normal(size=m + n) * 0.03, zen + rng.normal(size=m + n) * 0.03)
    else:
        pts = setup_points(rng, scn['kind'])
    pts = pts * (1 + scn['spread'] * rng.random((len(pts), 1)))
    how = scn['ctor']
    if how == 'sph':
        azi, zen = to_sph(pts / np.linalg.norm(pts, axis=1)[:, None])
        return spa.decoder.LoudspeakerSetup.from_sph(azi, zen, np.linalg.norm(pts, axis=1))
    if how == 'offset':
        off = rng.normal(size=3) * 0.5
        return spa.decoder.LoudspeakerSetup(*[c.copy() for c in (pts + off).T], listener_position=list(off))
    return spa.decoder.LoudspeakerSetup(*[c.copy() for c in pts.T])


def config(ls, op):
    k = op['op']
    if k == 'pop':
        ls.pop_triangles(**LIMITS[op['v'] % len(LIMITS)])
    elif k == 'ambi':
        ls.ambisonics_setup(**{key: op[key] for key in ('update_hull', 'imaginary_ls', 'characteristic_order',
                                                        'N_kernel') if key in op})
    elif k == 'exp':
        ls.a = [0, 1, 0.5, 2][op['v'] % 4]
    elif k == 'valid':
        v = np.array(ls.simplices)
        keep = rng_of(op['v']).random(len(v)) < 0.7
        keep[0] = True
        ls.valid_simplices = v[keep]
    elif k == 'edit':                 # in place
        v = ls.valid_simplices
        i = op['v'] % len(v)
        v[i] = v[(i + 1) % len(v)]
    elif k == 'ambipop':
        ls.ambisonics_hull.pop_triangles(**LIMITS[op['v'] % 2])
    elif k == 'ambiexp':
        ls.ambisonics_hull.a = [0, 2][op['v'] % 2]


CONFIG = ('pop', 'ambi', 'exp', 'valid', 'edit', 'ambipop', 'ambiexp')


def query(spa, ls, op, hr):
    rng = rng_of(op['v'])
    d = spa.decoder
    k = op['q']
    src = sphere_points(rng, op.get('n', 5)) * (1 + rng.random((op.get('n', 5), 1)))
    if k in ('vbap', 'vbip'):
        kw = dict(norm=op.get('norm', 2))
        if op.get('outside'):
            kw['retain_outside'] = True
        elif op.get('vs') == 'all':
            kw['valid_simplices'] = np.array(ls.simplices)
        elif op.get('vs') == 'some':
            keep = rng.random(len(ls.simplices)) < 0.6
            keep[-1] = True
            kw['valid_simplices'] = np.array(ls.simplices)[keep]
        elif op.get('vs') == 'cyc':
            kw['valid_simplices'] = np.array(ls.simplices)[::-1]
        elif op.get('vs') == 'list':
            kw['valid_simplices'] = [list(map(int, f)) for f in ls.simplices]
        if op.get('bad'):
            src = src[:, :2] if op['bad'] == 1 else 'left'
        return getattr(d, k)(src, ls, jobs_count=op.get('jobs', 1), **kw)
    if k in ('allrap', 'allrap2'):
        return getattr(d, k)(src, ls, N_sph=op.get('N'))
    if k in ('allrad', 'allrad2', 'sad', 'mad', 'epad'):
        N = op.get('N')
        Nf = N if N is not None else ls.characteristic_order
        if Nf is None:
            Nf = 6
        F = rng.normal(size=((min(Nf, 12) + 1) ** 2, 3))
        return getattr(d, k)(F, ls, N_sph=N)
    if k == 'order':
        return [ls.get_characteristic_order(), d.characteristic_ambisonic_order(ls)]
    if k == 'nls':
        return d.nearest_loudspeaker(src, ls)
    if k == 'bin':
        return ls.binauralize(rng.normal(size=(ls.npoints, 4)), hr.fs, orientation=(op['v'] % 7 / 3., 0.1), hrirs=hr)
    if k == 'sig':
        return ls.loudspeaker_signals(rng.normal(size=(4, ls.npoints)), rng.normal(size=4))
    if k == 'simplex':
        return [bool(ls.is_simplex_valid(f)) for f in np.array(ls.simplices)]
    if k == 'imag':
        return d.find_imaginary_loudspeaker(ls)
    if k == 'checks':
        return [d.check_normals(ls, 70), d.check_aperture(ls, 95), d.check_opening(ls, 120), d.apply_blacklist(ls, [0]),
                d.check_listener_inside(ls), d.calculate_barycenter(ls), d.calculate_centroids(ls),
                d.calculate_face_normals(ls), d.calculate_face_areas(ls), d.calculate_vertex_normals(ls)]
    if k == 'attrs':
        a = ls.ambisonics_hull
        return [ls.x, ls.y, ls.z, ls.d, ls.points, ls.simplices, ls.valid_simplices, ls.centroids, ls.face_normals,
                ls.vertex_normals, ls.face_areas, ls.barycenter, ls.npoints, ls.a, ls.ls_gains,
                ls.characteristic_order if ls.characteristic_order is None else int(ls.characteristic_order),
                [a.points, a.valid_simplices, a.imaginary_ls_idx, a.a] if a else None,
                [ls.kernel_hull.points, ls.kernel_hull.N_kernel] if a else None]
    if k == 'save':
        p = os.path.join(simfs.scratch(), 'l.json')
        src = ls.ambisonics_hull if ls.ambisonics_hull else ls
        spa.io.save_layout(p, src)
        import json
        j = json.load(open(p))
        return json.dumps(j.get('LoudspeakerLayout', j).get('Loudspeakers', None))
    raise HarnessError(k)


QUERIES = ['vbap'] * 8 + ['vbip'] * 3 + ['allrap', 'allrap', 'allrap2', 'allrad', 'allrad2', 'sad', 'mad', 'epad', 'order',
           'order', 'nls', 'bin', 'sig', 'simplex', 'imag', 'checks', 'attrs', 'attrs', 'save']


class C07(Check):
    id = 'C07'
    fault_kinds = {'line': ['MemoryError', 'KeyboardInterrupt', 'RuntimeError'],
                   'fs.open': ['EMFILE', 'EACCES', 'ENOENT'], 'fs.read': ['EIO']}

    def scenario(self, rng):
        ops = []
        # some histories keep changing and asking the same things of one setup
        focus = None
        if rng.random() < .3:
            focus = rng.choice(['pop', 'ambi', 'ambi', 'exp', 'valid', 'edit', 'ambipop', 'ambiexp'])
            asks = [rng.choice(QUERIES) for _ in range(rng.randint(1, 2))]
        for i in range(rng.randint(4, 11)):
            r = rng.random()
            o = rng.randrange(3)
            if focus:
                o, r = 0, [0, 1, 1][i % (1 + len(asks))]
            if r < 0.34:
                c = focus if focus and (i or focus[:5] != 'ambip' and focus != 'ambiexp') else 'ambi' if focus else rng.choice(['pop', 'pop', 'pop', 'ambi', 'ambi', 'ambi', 'exp', 'valid', 'edit', 'ambipop', 'ambiexp'])
                op = dict(op=c, o=o, v=rng.randrange(1000))
                if c == 'ambi':
                    op['N_kernel'] = rng.choice([2, 3, 5])
                    im = rng.random()
                    if im < 0.4:
                        op.update(update_hull=True, imaginary_ls=[[0, 0, -1.6]] if rng.random() < .7 else
                                  [[0.1, 0, -1.7], [0, 0.2, 1.9]])
                    elif im < 0.8:
                        op['update_hull'] = True
                    if rng.random() < 0.5:
                        op['characteristic_order'] = rng.randint(1, 4)
                if rng.random() < 0.2:
                    op['twice'] = True
            elif r < 0.42:
                op = dict(op='copy', o=o, deep=rng.random() < 0.5)
            else:
                op = dict(op='query', o=o, q=rng.choice(asks if focus else QUERIES), v=rng.randrange(1000), n=rng.choice([1, 5, 12]))
                if op['q'] in ('vbap', 'vbip'):
                    op['norm'] = rng.choice([1, 2, 2])
                    op['outside'] = rng.random() < 0.15
                    op['vs'] = rng.choice([None, None, None, 'all', 'some', 'some', 'cyc', 'list'])
                    op['jobs'] = rng.choice([1, 1, 1, 2])
                    op['bad'] = rng.choice([0, 0, 0, 0, 1, 2])
                if op['q'][:2] in ('al', 'sa', 'ma', 'ep'):
                    op['N'] = rng.choice([None, 1, 2, 3])
            ops.append(op)
        nf = 1 if rng.random() < 0.35 else 0
        if nf:
            cand = [i for i, op in enumerate(ops) if op['op'] in ('pop', 'ambi', 'query')]
            if cand:
                ops[rng.choice(cand)]['interrupt'] = True
            else:
                nf = 0
        return dict(kind=rng.choice(['dome', 'dome', 'octa', 'cube', 'random', 'ico']), ctor=rng.choice(['xyz', 'xyz', 'sph',
                    'offset']), spread=rng.choice([0, 0.3, 0.6]), seed=rng.randrange(10 ** 6), ops=ops, nfaults=nf,
                    method=rng.choice(METHODS))

    def shrink(self, scn):
        return shrink_list(scn, 'ops')

    def nontrivial(self, scn, faults, res):
        return res['info'].get('nontrivial', False)

    def execute(self, scn, faults, strategy, out):
        with simenv(scn, faults, strategy, budget=3000000, trace='line') as sim:
            out['sim'] = sim
            sim.trace = None
            sim.faults.enabled = False
            line_fault(sim)
            spa = sim.load_main()
            cover = out['cover'] = {}
            hd = hrir_data(rng_of(scn['seed'] + 1), 6, 4)
            hr = spa.sig.HRIRs(hd['left'].copy(), hd['right'].copy(), hd['azi'].copy(), hd['zen'].copy(), 44100)
            objs = [dict(ls=make(spa, scn), log=[], family=set([0]))]
            asked = []          # (log, query op, outcome)
            history = []

            def do(f, *a):
                if op.get('interrupt') and not do.used:
                    do.used = True
                    sim.faults.enabled = True
                    try:
                        return traced(sim, f, *a), True
                    finally:
                        sim.faults.enabled = False
                return call(f, *a), False
            do.used = False
            nconf = 0
            for i, op in enumerate(scn['ops']):
                do.used = False
                ob = objs[op['o'] % len(objs)]
                ls = ob['ls']
                if op['op'] == 'copy':
                    if len(objs) > 2:
                        continue
                    new = copy.deepcopy(ls) if op['deep'] else copy.copy(ls)
                    n = dict(ls=new, log=list(ob['log']), family=set())
                    if op['deep']:
                        n['family'] = set()
                    else:
                        n['family'] = ob['family'] = set([9])      # shares arrays with its copy
                    objs.append(n)
                    history.append('copy%d' % op['deep'])
                    cover['copies'] = cover.get('copies', 0) + 1
                elif op['op'] in CONFIG:
                    k = op['op']
                    if k in ('edit', 'ambipop', 'ambiexp') and 9 in ob['family']:
                        continue
                    if k in ('ambipop', 'ambiexp') and not ls.ambisonics_hull:
                        continue
                    if k == 'edit' and len(ls.valid_simplices) < 2:
                        continue
                    before = len(sim.faults.fired)
                    o, _ = do(config, ls, op)
                    if len(sim.faults.fired) > before:
                        # interrupted: anything may be asked, then the step is repeated
                        history.append('interrupted ' + k)
                        if op['v'] % 2:
                            call(query, spa, ls, dict(q='vbap', v=1, n=3), hr)
                            call(query, spa, ls, dict(q='order', v=1, n=3), hr)
                        o = call(config, ls, op)
                        cover['interrupted steps'] = cover.get('interrupted steps', 0) + 1
                    if not o.ok:
                        # the step itself is impossible for this setup (no rim, no triangle left, ...)
                        ob['dead'] = True
                        ref = fresh(sim, lambda spa2: self.replay(spa2, scn, ob['log'] + [op]))
                        if ref.ok:
                            return violation('config-fails', '%s: step %s fails (%r) but works on a fresh setup of the same '
                                             'configuration' % (self.tell(scn, history), self.tell_op(op), o))
                        objs.remove(ob)
                        if not objs:
                            break
                        continue
                    ob['log'].append(op)
                    if op.get('twice') and k != 'edit':
                        o2 = call(config, ls, op)
                        if not o2.ok:
                            return violation('repeat-fails', '%s: repeating %s: %r' % (self.tell(scn, history),
                                             self.tell_op(op), o2))
                    nconf += 1
                    history.append(self.tell_op(op))
                    cover['config ' + k] = cover.get('config ' + k, 0) + 1
                else:
                    before = len(sim.faults.fired)
                    o, _ = do(lambda: plain(query(spa, ls, op, hr)))
                    history.append(self.tell_op(op))
                    if len(sim.faults.fired) > before:
                        cover['failed queries'] = cover.get('failed queries', 0) + 1
                        history[-1] += ' (failing)'
                        if not o.ok:
                            o = call(lambda: plain(query(spa, ls, op, hr)))
                        else:
                            continue
                    asked.append((list(ob['log']), op, o, list(history)))
            # final questions to every object
            for k, ob in enumerate(objs):
                for q in ('attrs', 'vbap', 'order', 'bin') + (('allrap2',) if ob['ls'].ambisonics_hull else ()):
                    op = dict(op='query', q=q, v=77, n=6, N=None)
                    asked.append((list(ob['log']), op, call(lambda: plain(query(spa, ob['ls'], op, hr))),
                                  history + ['object %d: %s' % (k, q)]))
            out['nontrivial'] = nconf > 0 and len(asked) > 5 + len(objs)
            out['digest'] = digest([repr(a[2]) for a in asked] + [a[2].value for a in asked if a[2].ok and a[1]['q'] in (
                'vbap', 'bin')])

            def answers(spa2):
                hr2 = spa2.sig.HRIRs(hd['left'].copy(), hd['right'].copy(), hd['azi'].copy(), hd['zen'].copy(), 44100)
                res = []
                for log, op, _, _ in asked:
                    ls2 = self.replay(spa2, scn, log)
                    res.append(call(lambda: plain(query(spa2, ls2, op, hr2))))
                return res
            ref = fresh(sim, answers)
            if not ref.ok:
                raise HarnessError('reference: %r' % (ref,))
            for (log, op, o, hist), want in zip(asked, ref.value):
                if o.ok != want.ok or (not o.ok and type(o.exc).__name__ != type(want.exc).__name__):
                    return violation('outcome', '%s: %s %r, but %r on a fresh setup of the same configuration'
                                     % (self.tell(scn, hist), self.tell_op(op), o, want))
                if o.ok:
                    d = diff(o.value, want.value)
                    if d:
                        return violation('stale', '%s: %s differs from a fresh setup of the same configuration%s'
                                         % (self.tell(scn, hist), self.tell_op(op), d))
        return None

    def replay(self, spa, scn, log):
        ls = make(spa, scn)
        for op in log:
            config(ls, op)
        return ls

    def tell_op(self, op):
        if op['op'] == 'query':
            return '%s(%s)' % (op['q'], ', '.join('%s=%s' % (k, op[k]) for k in ('vs', 'outside', 'bad', 'norm', 'N')
                                                  if op.get(k)))
        if op['op'] == 'pop':
            return 'pop_triangles(%s)' % LIMITS[op['v'] % len(LIMITS)]
        return op['op']

    def tell(self, scn, hist):
        return '%s setup after [%s]' % (scn['kind'], '; '.join(hist[:-1][-12:]))


CHECK = C07()
