"""C12: saved loudspeaker layouts load back complete or not at all, through failing disks, crashes and concurrent readers."""
import glob
import json
import os
from .common import *
from simkit import fs as simfs

BUNDLED = sorted(glob.glob(os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'data', 'ls_layouts', '*.json')))


class Rec:
    """What a layout file stands for."""

    def __init__(self, real, gains, imag, exact=False):
        self.real = np.array(real, float).reshape(-1, 3)
        self.gains = np.array(gains, float)
        self.imag = np.array(imag, float).reshape(-1, 3)
        self.exact = exact


def apart(a, b, exact):
    """Do positions differ by more than the stored resolution (0.01 degrees, 0.01 m)?"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return '%s instead of %s' % (a.shape, b.shape)
    if a.size == 0:
        return None
    if exact:
        return diff(a, b, 1e-7, 1e-7)
    ra, rb = np.linalg.norm(a, axis=1), np.linalg.norm(b, axis=1)
    ea, eb = [np.rad2deg(np.arcsin(np.clip(v[:, 2] / r, -1, 1))) for v, r in ((a, ra), (b, rb))]
    za, zb = [np.rad2deg(np.arctan2(v[:, 1], v[:, 0])) for v in (a, b)]
    dz = np.abs((za - zb + 180) % 360 - 180) * (np.cos(np.deg2rad(eb)) > 1e-3)
    bad = (np.abs(ra - rb) > .0052) | (np.abs(ea - eb) > .0053) | (dz > .0053)
    if bad.any():
        i = int(np.argmax(bad))
        return 'loudspeaker %d at %s instead of %s' % (i, np.round(a[i], 4), np.round(b[i], 4))
    return None


def look(ls):
    """Plain view of a loaded layout."""
    h = ls.ambisonics_hull
    i = h.imaginary_ls_idx
    i = [] if i is None else [int(v) for v in np.atleast_1d(i)]
    return dict(real=np.array(np.c_[ls.x, ls.y, ls.z]), points=np.array(ls.points), n=int(ls.npoints),
                gains=np.array(ls.ls_gains, float), imag=np.array(h.points)[i], others=np.delete(np.array(h.points), i, 0),
                kernel=ls.kernel_hull.N_kernel, d=np.array(ls.d))


def check(v, r, N, lp=None):
    real = r.real if lp is None else r.real - lp
    if lp is None:
        d = apart(v['real'], real, r.exact)
    else:
        d = None if np.max(np.abs(v['real'] - real)) < 2e-4 * np.max(np.abs(r.real)) + .01 and v['real'].shape == real.shape \
            else 'positions relative to the listener are wrong'
    d = d or diff(v['points'], v['real'], path='points') or diff(v['n'], len(real), path='npoints')
    d = d or diff(v['d'], np.linalg.norm(v['real'], axis=1), path='distances')
    d = d or diff(v['gains'], r.gains, 1e-12, 0, 'gains')
    d = d or diff(v['others'], v['real'], path='loudspeakers of the Ambisonics hull')
    if lp is None:
        e = apart(v['imag'], r.imag, r.exact)
        d = d or (e and 'imaginary: ' + e)
    elif len(v['imag']) != len(r.imag):
        d = d or '%d imaginary loudspeakers' % len(v['imag'])
    return d or diff(v['kernel'], N, path='N_kernel')


class C12(Check):
    id = 'C12'
    fault_kinds = {'fs.open.w': ['EACCES', 'ENOSPC', 'EMFILE', 'EROFS', 'crash'],
                   'fs.write': ['ENOSPC', 'EIO', 'short', 'crash', 'crash-mid', 'crash-mid', 'crash-after'],
                   'fs.close': ['EIO', 'ENOSPC', 'crash', 'crash'], 'fs.replace': ['EIO', 'crash', 'ENOSPC'],
                   'fs.open': ['EACCES', 'EMFILE', 'EIO'], 'fs.read': ['EIO', 'short'],
                   'line': ['MemoryError', 'KeyboardInterrupt']}

    def scenario(self, rng):
        lay = [dict(kind=rng.choice(['cube', 'octa', 'ico', 'random', 'ring', 'big']), v=rng.randrange(10 ** 6),
                    imag=rng.choice(['auto', 'none', 'one', 'two', 'three']),
                    gains=rng.choice(['float', 'float', 'int', 'list', 'f4', 'ones', 'neg', 'intlist']),
                    lp=rng.random() < 0.3, far=rng.choice([1, 1, 1, 7.3, 40])) for _ in range(rng.randint(1, 3))]
        ops = []
        for _ in range(rng.randint(2, 6)):
            r = rng.random()
            f = rng.randrange(2)
            if r < 0.45 or not ops:
                ops.append(dict(op='save', o=rng.randrange(3), f=f, proc=rng.random() < 0.5, readers=rng.choice([0, 0, 1, 2]),
                                name=rng.choice(['unknown', 'Ünï', 'a"b\\n{', '']), v=rng.randrange(10 ** 6),
                                bad=rng.choice([None] * 8 + ['gain text', 'few gains', 'name', 'no hull', 'gain none'])))
            elif r < 0.85:
                ops.append(dict(op='load', f=f, lp=rng.random() < 0.2, N=rng.choice([2, 3]), home=rng.random() < 0.3))
            elif r < 0.93:
                ops.append(dict(op='foreign', f=f, v=rng.randrange(10 ** 6), o=rng.randrange(3),
                                drop=rng.choice([None, None, 'Gain', 'IsImaginary', 'Radius', 'Azimuth'])))
            else:
                ops.append(dict(op='bundled', i=rng.randrange(4)))
        return dict(layouts=lay, ops=ops, nfaults=rng.choice([0, 1, 1, 1, 2]), clock=rng.choice([None, None, -4e9, 7e9, 1.5e8]),
                    jumps=rng.random() < 0.3, left=rng.choice([None] * 8 + [0, 700, 3000]), lines=rng.random() < 0.15)

    def shrink(self, scn):
        out = shrink_list(scn, 'ops')
        for i, o in enumerate(scn['ops']):
            if o.get('readers'):
                out.append(dict(scn, ops=scn['ops'][:i] + [dict(o, readers=0)] + scn['ops'][i + 1:]))
        if scn['left'] is not None:
            out.append(dict(scn, left=None))
        if scn['clock'] or scn['jumps']:
            out.append(dict(scn, clock=None, jumps=False))
        return out

    def choose_faults(self, rng, hits, scn):
        if scn['lines'] and hits.get('line'):
            return [dict(site='line', nth=rng.randrange(hits['line']), kind=rng.choice(self.fault_kinds['line']))]
        f = super().choose_faults(rng, {k: v for k, v in hits.items() if k != 'line'}, scn)
        return list({(x['site'], x['nth']): x for x in f}.values())

    def nontrivial(self, scn, faults, res):
        return res['info'].get('loads', 0) > 0

    def points(self, o):
        rng = rng_of(o['v'])
        if o['kind'] == 'big':
            pts = sphere_points(rng, 34)
            pts = np.vstack([pts, np.eye(3), -np.eye(3)]) + 1e-3
        else:
            pts = setup_points(rng, o['kind'])
        pts = pts * (o['far'] * (0.5 if o['far'] < 1 else 1))
        lp = rng.normal(size=3) * .1 * o['far'] if o['lp'] else None
        return pts, lp, rng

    def record(self, o):
        pts, lp, rng = self.points(o)
        n = len(pts)
        g = rng.normal(size=n) if o['gains'] in ('float', 'list', 'neg') else np.round(rng.normal(size=n) * 3)
        if o['gains'] == 'ones':
            g = np.ones(n)
        if o['gains'] == 'f4':
            g = rng.normal(size=n).astype(np.float32)
        elif o['gains'] == 'neg':
            g = -np.abs(g)
        imag = rng.normal(size=({'one': 1, 'two': 2, 'three': 3}.get(o['imag'], 1), 3))
        imag = imag / np.linalg.norm(imag, axis=1)[:, None] * 1.7 * np.max(np.abs(pts))
        return pts, lp, g, imag

    def layout(self, spa, o, N=2, bad=None):
        pts, lp, g, imag = self.record(o)
        k = {} if lp is None else dict(listener_position=list(lp))
        ls = spa.decoder.LoudspeakerSetup(*[c.copy() for c in pts.T], **k)
        if bad != 'no hull':
            if o['imag'] == 'auto':
                try:
                    ls.ambisonics_setup(update_hull=True, N_kernel=N, characteristic_order=1)
                except RuntimeError:        # a closed hull has no rim to add a loudspeaker at
                    ls.ambisonics_setup(update_hull=False, N_kernel=N, characteristic_order=1)
            elif o['imag'] == 'none':
                ls.ambisonics_setup(update_hull=False, N_kernel=N, characteristic_order=1)
            else:
                ls.ambisonics_setup(update_hull=True, imaginary_ls=imag, N_kernel=N, characteristic_order=1)
        ls.ls_gains = {'int': g.astype(int), 'list': g.tolist(), 'intlist': [int(v) for v in g]}.get(o['gains'], g) \
            if o['gains'] in ('int', 'list', 'intlist') else g
        if bad == 'gain text':
            ls.ls_gains = ['1.0'] * (len(g) - 1) + ['loud']
        elif bad == 'few gains':
            ls.ls_gains = ls.ls_gains[:-1]
        elif bad == 'gain none':
            ls.ls_gains = [1.0] * (len(g) - 1) + [None]
        real = pts if lp is None else pts - lp
        h = ls.ambisonics_hull
        if bad is None:
            i = h.imaginary_ls_idx
            return ls, Rec(real, g, [] if i is None else np.array(h.points)[np.atleast_1d(i)])
        return ls, None

    def execute(self, scn, faults, strategy, out):
        with simenv(scn, faults, strategy, budget=3000000, trace='line') as sim:
            out['sim'] = sim
            sim.trace = None
            sim.faults.enabled = False
            if scn['clock']:
                sim.env['clock_offset'] = scn['clock']
            if scn['jumps']:
                sim.env['clock_jumps'] = [-3e7, 9e7, -1e9, 0.0, 2e9] * 20
            spa = sim.load_main()
            out['cover'] = {}
            out['loads'] = 0
            st = {}              # file -> (possible records, may raise?)
            hist = []
            for op in scn['ops']:
                v = self.step(sim, spa, scn, op, st, hist, out)
                if v:
                    return v
            # once the faults are over everything works again
            for f in (0, 1):
                v = self.step(sim, spa, scn, dict(op='load', f=f, lp=False, N=2, home=False), st, hist, out)
                if v:
                    return v
            sim.env['disk_left'] = None
            v = self.step(sim, spa, dict(scn, left=None), dict(op='save', o=0, f=0, proc=False, readers=0, name='x', v=1, bad=None,
                                                               calm=True), st, hist, out)
            v = v or self.step(sim, spa, scn, dict(op='load', f=0, lp=False, N=2, home=True, calm=True), st, hist, out)
            if v:
                return v
            out['digest'] = digest(hist)
        return None

    @staticmethod
    def crashy(sim):
        return any(str(f['kind']).startswith('crash') for f in sim.faults.plan)

    def step(self, sim, spa, scn, op, st, hist, out):
        cov = out['cover']
        names = [os.path.join(simfs.scratch(), 'room.%d' % i, 'layout.json') for i in (0, 1)]
        for n in names:
            os.makedirs(os.path.dirname(n), exist_ok=True)

        def hits():
            return len(sim.faults.fired) + sim.stats.get('disk_full', 0)

        def content(p):
            try:
                with simfs._open(p, 'rb') as g:
                    return g.read()
            except FileNotFoundError:
                return None
        text = lambda: ' -> '.join(hist[-6:])
        n0 = hits()
        if op['op'] == 'save':
            o = scn['layouts'][op['o'] % len(scn['layouts'])]
            f = op['f']
            p = names[f]
            before = content(p)
            box, got = [], []
            name = object() if op['bad'] == 'name' else op['name']

            def save(s):
                ls, rec = self.layout(s, o, bad=op['bad'])
                box.append(rec)
                on = not op.get('calm')
                sim.faults.enabled = on
                if on:
                    sim.env['disk_left'] = scn['left']
                try:
                    if scn['lines'] and on:
                        line_fault(sim)
                        return traced(sim, s.io.save_layout, p, ls, name=name, description='d')
                    return call(s.io.save_layout, p, ls, name=name, description='d')
                finally:
                    sim.faults.enabled = False
                    sim.env['disk_left'] = None
            ts = []
            if op['proc'] or op['readers'] or self.crashy(sim):
                res = []
                pr, t = sim.spawn_process('saver', lambda s: res.append(save(s)))
                ts.append(t)
                for _ in range(op['readers']):
                    def read(s):
                        q = call(s.io.load_layout, p, N_kernel=2)
                        got.append((q, look(q.value) if q.ok else None))
                    ts.append(sim.spawn_process('reader', read)[1])
                try:
                    sim.join(ts)
                except SimHang:
                    return violation('hang', '%s: saving or loading never returns' % text())
                for t in ts:
                    if t.exc is not None:
                        raise HarnessError('%r' % (t.exc,))
                r = res[0] if res else None
                sim.faults.enabled = False
                sim.env['disk_left'] = None
            else:
                r = save(spa)
            crashed = r is None
            rec = box[0]
            hit = hits() > n0 or crashed
            hist.append('save%s %d%s%s' % (' by a process' if op['proc'] else '', f, ' (%s)' % op['bad'] if op['bad'] else '',
                                           ' crashed' if crashed else '' if r.ok else '=' + type(r.exc).__name__))
            key = 'save ' + ('crashed' if crashed else 'ok' if r.ok else 'failed') + (' ' + op['bad'] if op['bad'] else '')
            cov[key] = cov.get(key, 0) + 1
            old = st.get(f, ([], True))
            for q, v in got:
                cov['read while saving' + (' ok' if q.ok else ' failed')] = cov.get(
                    'read while saving' + (' ok' if q.ok else ' failed'), 0) + 1
                if q.hang:
                    return violation('hang', '%s: reader never returns' % text())
                if q.ok:
                    ds = [check(v, x, 2) for x in old[0] + ([rec] if rec else [])]
                    if not ds or all(ds):
                        return violation('partial', '%s: a reader during the save got a layout that was never saved: %s'
                                         % (text(), ds[-1] if ds else 'there was none'))
            if op['bad']:
                if r is not None and r.ok:
                    return violation('accepted', '%s: a layout that cannot be stored was saved' % text())
                if content(p) != before:
                    return violation('damaged', '%s: a layout that cannot be stored damaged the existing file' % text())
                return None
            if not crashed and r.ok:
                try:
                    j = json.loads(content(p).decode())['LoudspeakerLayout']['Loudspeakers']
                except Exception as e:
                    return violation('incomplete', '%s: reported as saved but unreadable: %r' % (text(), e))
                if len(j) != len(rec.real) + len(rec.imag):
                    return violation('incomplete', '%s: %d loudspeakers in the file' % (text(), len(j)))
                st[f] = ([rec], False)
                return None
            if not crashed and not hit:
                return violation('raised', '%s: %r' % (text(), r))
            st[f] = (old[0] + [rec], True)
            return None
        if op['op'] == 'load':
            f = op['f']
            p = '~/room.%d/layout.json' % f if op['home'] else names[f]
            lp = np.array([.02, -.03, .04]) if op['lp'] else None

            def load(s):
                sim.faults.enabled = not op.get('calm')
                try:
                    return call(s.io.load_layout, p, N_kernel=op['N'], **kw)
                finally:
                    sim.faults.enabled = False
            kw = {} if lp is None else dict(listener_position=list(lp))
            if self.crashy(sim):
                res = []
                _, t = sim.spawn_process('loader', lambda s: res.append(load(s)))
                try:
                    sim.join([t])
                except SimHang:
                    return violation('hang', '%s, load never returns' % text())
                if t.exc is not None:
                    raise HarnessError('%r' % (t.exc,))
                o = res[0] if res else None
                sim.faults.enabled = False
            else:
                o = load(spa)
            if o is None:
                hist.append('load crashed')
                return None
            hit = hits() > n0
            hist.append('load %d%s' % (f, '' if o.ok else '=' + type(o.exc).__name__))
            key = 'load ' + ('ok' if o.ok else 'failed')
            cov[key] = cov.get(key, 0) + 1
            if o.hang:
                return violation('hang', '%s never returns' % text())
            recs, may = st.get(f, ([], True))
            if not o.ok:
                if not hit and not may:
                    return violation('raised', '%s: %r' % (text(), o))
                return None
            ds = [check(look(o.value), x, op['N'], lp) for x in recs]
            if not ds:
                return violation('phantom', '%s: loaded something although nothing was saved' % text())
            if all(ds):
                return violation('wrong', '%s: the layout loaded differs from what was saved%s: %s' % (
                    text(), ' (all %d candidates)' % len(ds) if len(ds) > 1 else '', ds[-1]))
            out['loads'] += 1
            if lp is None and not may and op.get('again', True):
                # saving what was loaded changes nothing any more
                p2 = os.path.join(simfs.scratch(), 'again.json')
                o1 = call(spa.io.save_layout, p2, o.value)
                o2 = call(spa.io.load_layout, p2, N_kernel=op['N'])
                if not o1.ok or not o2.ok:
                    return violation('raised', '%s: saving and loading the loaded layout: %r, %r' % (text(), o1, o2))
                v = look(o.value)
                d = check(look(o2.value), Rec(v['real'], v['gains'], v['imag'], True), op['N'])
                if d:
                    return violation('drift', '%s: a second round trip moves the layout: %s' % (text(), d))
            return None
        if op['op'] == 'foreign':
            # a file with imaginary loudspeakers anywhere, or without optional entries
            rng = rng_of(op['v'])
            o = scn['layouts'][op['o'] % len(scn['layouts'])]
            pts, _, g, imag = self.record(o)
            al = [(q, float(w), False) for q, w in zip(pts, g)] + [(q, 0., True) for q in imag]
            al = [al[i] for i in rng.permutation(len(al))]
            ent = []
            for i, (q, w, im) in enumerate(al):
                r = np.linalg.norm(q)
                e = dict(Azimuth=round(float(np.rad2deg(np.arctan2(q[1], q[0]))), 2),
                         Elevation=round(float(np.rad2deg(np.arcsin(q[2] / r))), 2), Radius=round(float(r), 2),
                         IsImaginary=im, Channel=i + 1, Gain=w)
                e.pop(op['drop'], None)
                ent.append(e)
            with simfs._open(names[op['f']], 'w') as h:
                json.dump(dict(Name='n', Description='d', LoudspeakerLayout=dict(Name='n', Loudspeakers=ent)), h)
            hist.append('foreign %d%s' % (op['f'], ' without ' + op['drop'] if op['drop'] else ''))
            real = [(q, w) for q, w, im in al if not im or op['drop'] == 'IsImaginary']
            im = [q for q, w, i in al if i and op['drop'] != 'IsImaginary']
            gains = np.ones(len(real)) if op['drop'] == 'Gain' else [w for _, w in real]
            if op['drop'] in ('Radius', 'Azimuth'):
                st[op['f']] = ([], True)
            else:
                st[op['f']] = ([Rec([q for q, _ in real], gains, im)], False)
            return None
        if not BUNDLED:
            return None
        p = BUNDLED[op['i'] % len(BUNDLED)]
        with simfs._open(p) as h:
            j = json.load(h)['LoudspeakerLayout']['Loudspeakers']
        cart = lambda e: unit(np.deg2rad(e['Azimuth']), np.deg2rad(90 - e['Elevation'])) * e['Radius']
        rec = Rec([cart(e) for e in j if not e['IsImaginary']], [e['Gain'] for e in j if not e['IsImaginary']],
                  [cart(e) for e in j if e['IsImaginary']], True)
        o = call(spa.io.load_layout, p, N_kernel=2)
        hist.append('load ' + os.path.basename(p))
        if not o.ok:
            return violation('raised', '%s: %r' % (text(), o))
        d = check(look(o.value), rec, 2)
        return violation('wrong', '%s: %s' % (text(), d)) if d else None


CHECK = C12()
