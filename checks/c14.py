"""C14: grid loaders return exactly the bundled design or raise, whatever fails and whoever wrote into earlier results."""
import os
import threading
from .common import *
from simkit import boot, fs as simfs
from simkit.sched import current_task

RANGE = {'t': (1, 21), 'n': (1, 124), 'leb': (3, 131), 'fm': (2, 30), 'max': (1, 200)}
FILES = {'t': 't_designs_1_21.mat', 'n': 'n_designs_1_124.mat', 'leb': 'lebedevQuadratures_3_131.mat',
         'fm': 'fliegeMaierNodes_1_30.mat', 'max': 'maxDetPoints_1_200.mat'}
FUNC = {'t': 'load_t_design', 'n': 'load_n_design', 'leb': 'load_lebedev', 'fm': 'load_Fliege_Maier_nodes', 'max': 'load_maxDet'}
_truth = {}


def source(kind):
    return os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'data', 'Grids', FILES[kind])


def made(path):
    """A maximum determinant file (it is not part of the repository) with gaps and a negative weight."""
    from scipy.io import savemat
    rng = rng_of(99)
    d = {}
    for deg in [1, 2, 3, 5, 6, 9, 12, 13, 17, 24, 40, 77, 150, 199]:
        p = sphere_points(rng, min((deg + 1) ** 2, 90))
        w = rng.random(len(p)) + .1
        if deg == 12:
            w[3] = -.1
        d['maxDet_%03d' % deg] = np.c_[p, w / w.sum() * 4 * np.pi]
    savemat(path, d)


def truth(kind):
    """degree -> (points, weights or None) of the bundled file."""
    if kind not in _truth:
        from scipy.io import loadmat
        p = source(kind) if kind != 'max' else os.path.join(boot.ROOT, 'maxdet.mat')
        if kind == 'max':
            made(p)
        m = loadmat(p)
        if kind == 't':
            d = {i + 1: (np.array(v), None) for i, v in enumerate(m['t_designs'][0])}
        elif kind == 'fm':
            d = {i + 1: (np.array(v[:, :3]), np.array(v[:, 3])) for i, v in enumerate(np.squeeze(m['fliegeNodes'])) if v.size}
        elif kind == 'n':
            d = {int(k[1:]): (np.array(v), None) for k, v in m.items() if k[0] == 'N' and k[1:].isdigit()}
        else:
            f = 4 * np.pi if kind == 'leb' else 1
            d = {int(k[-3:]): (np.array(v[:, :3]), f * v[:, 3]) for k, v in m.items() if not k.startswith('__')}
        _truth[kind] = d
    return _truth[kind]


class C14(Check):
    id = 'C14'
    fault_kinds = {'fs.open': ['EACCES', 'EMFILE', 'EIO', 'ENOENT', 'ENOMEM'], 'fs.read': ['EIO', 'EIO', 'ENOMEM', 'short', 'MemoryError'],
                   'fs.close': ['EIO'], 'line': ['MemoryError', 'KeyboardInterrupt']}

    def scenario(self, rng):
        def load():
            k = rng.choice(['t', 'n', 'n', 'leb', 'leb', 'fm', 'max'])
            lo, hi = RANGE[k]
            d = rng.choice([rng.randint(lo, hi) for _ in range(12)] + [lo, hi, lo - 1, hi + 1, 0, -1, -rng.randint(1, 9), hi + rng.randint(1, 40)])
            return dict(op='load', k=k, d=d, scribble=rng.choice([None, None, 'zero', 'nan', 'sort', 'resize']),
                        t=rng.choice(['int', 'int', 'int64', 'int32']), again=rng.random() < .5)
        threads = rng.choice([1, 1, 1, 2, 3])
        ops = []
        for _ in range(threads):
            o = []
            for _ in range(rng.randint(1, 5) if threads == 1 else rng.randint(1, 2)):
                if threads == 1 and rng.random() < .3:
                    o.append(dict(op='damage', k=rng.choice(sorted(FILES)), v=rng.randrange(10 ** 6),
                                  how=rng.choice(['missing', 'truncated', 'truncated', 'directory', 'garbage', 'empty', 'whole', 'text'])))
                    if rng.random() < .7:
                        o.append(dict(load(), k=o[-1]['k']))
                else:
                    o.append(load())
            ops.append(o)
        return dict(threads=ops, nfaults=rng.choice([0, 1, 1, 2]), lines=rng.random() < .2, trace=rng.choice(['line', 'opcode']))

    def shrink(self, scn):
        out = shrink_list(scn, 'threads')
        for i, o in enumerate(scn['threads']):
            for s in shrink_list(dict(ops=o), 'ops'):
                out.append(dict(scn, threads=scn['threads'][:i] + [s['ops']] + scn['threads'][i + 1:]))
        return out

    def choose_faults(self, rng, hits, scn):
        if scn['lines'] and hits.get('line'):
            return [dict(site='line', nth=rng.randrange(hits['line']), kind=rng.choice(self.fault_kinds['line']))]
        return super().choose_faults(rng, {k: v for k, v in hits.items() if k != 'line'}, scn)

    def nontrivial(self, scn, faults, res):
        return res['info'].get('loads', 0) > 0

    def place(self, k, how=None, v=0):
        """Put the grid file into the simulated checkout, intact or damaged."""
        p = os.path.join(boot.ROOT, 'checkout', 'data', 'Grids', FILES[k])
        src = source(k) if k != 'max' else os.path.join(boot.ROOT, 'maxdet.mat')
        if os.path.isdir(p):
            simfs.R['rmdir'](p)
        elif os.path.lexists(p):
            simfs.R['remove'](p)
        if how in (None, 'whole'):
            simfs.R['symlink'](src, p)
            return
        rng = rng_of(v)
        with simfs._open(src, 'rb') as f:
            b = f.read()
        if how == 'truncated':
            n = rng.integers(128, len(b)) if rng.random() < .7 else len(b) - rng.integers(1, 40)
            import io
            from scipy.io import loadmat
            while True:
                try:
                    loadmat(io.BytesIO(b[:n]))
                except Exception:
                    break
                n -= 3                     # cut between two variables: not recognisable as damage
            b = b[:n]
        elif how == 'garbage':
            b = rng.bytes(len(b) // 8)
        elif how == 'text':
            b = b'<html>404 not found</html>' * 20
        elif how == 'empty':
            b = b''
        if how == 'directory':
            simfs.R['mkdir'](p)
        elif how != 'missing':
            with simfs._open(p, 'wb') as f:
                f.write(b)

    def execute(self, scn, faults, strategy, out):
        truth('max')
        for k in FILES:
            self.place(k)
        try:
            with simenv(scn, faults, strategy, budget=3000000, trace=scn.get('trace') if len(scn['threads']) > 1 else 'line') as sim:
                out['sim'] = sim
                v = self.run(sim, scn, out)
        finally:
            for k in FILES:
                self.place(k)
        return v

    def run(self, sim, scn, out):
        spa = sim.load_main()
        out['cover'] = cov = {}
        out['loads'] = 0
        hist = []
        bad = {}
        found = []
        single = len(scn['threads']) == 1
        on_line = scn['lines'] and sim.trace == 'line'
        if not single:
            sim.line_plan = (lambda task, frame: True) if on_line else None
        elif not on_line:
            sim.trace = None
        if on_line:
            sim.line_plan = lambda task, frame: True

        def thread(i):
            for o in scn['threads'][i]:
                x = self.step(sim, spa, o, bad, hist, cov, out, single, on_line and single)
                if x:
                    found.append(x)
                    return
        if single:
            thread(0)
        else:
            ts = [sim.task('caller%d' % i, lambda i=i: thread(i)) for i in range(len(scn['threads']))]
            try:
                sim.join(ts)
            except SimHang:
                return violation('hang', ' '.join(hist) + ': a grid loader never returns')
            for t in ts:
                if t.exc is not None:
                    raise HarnessError('%r' % (t.exc,))
        if found:
            return found[0]
        # when everything is whole again so are the results
        sim.faults.enabled = False
        for k in sorted(bad):
            self.place(k)
        done = {(o['k'], o['d']) for t in scn['threads'] for o in t if o['op'] == 'load'}
        for k, d in sorted(done):
            x = self.step(sim, spa, dict(op='load', k=k, d=d, t='int', scribble=None, again=False), {}, hist, cov, out, True, False)
            if x:
                return x
        out['digest'] = digest([sorted(hist) if not single else hist])
        return None

    def step(self, sim, spa, o, bad, hist, cov, out, single, lines):
        if o['op'] == 'damage':
            self.place(o['k'], o['how'], o['v'])
            if o['how'] == 'whole':
                bad.pop(o['k'], None)
            else:
                bad[o['k']] = o['how']
            hist.append('%s file %s' % (o['k'], o['how']))
            return None
        k, d = o['k'], o['d']
        lo, hi = RANGE[k]
        tr = truth(k)
        e = d
        if k in ('n', 'leb', 'max'):
            while e not in tr and e <= hi:
                e += 1
        want = tr.get(e) if lo <= d <= hi else None
        deg = {'int': int, 'int64': np.int64, 'int32': np.int32}[o['t']](d)
        for _ in range(2 if o['again'] else 1):
            n0 = len(sim.faults.fired)
            w = current_task().warnings
            w0 = len(w)
            f = getattr(spa.grids, FUNC[k])
            r = traced(sim, f, deg) if lines else call(f, deg)
            hit = len(sim.faults.fired) > (n0 if single else 0)
            name = '%s(%d)' % (FUNC[k], d)
            hist.append(name + ('' if r.ok else '=' + (type(r.exc).__name__ if r.exc else 'hang')))
            text = ' '.join(hist[-6:])
            if r.hang:
                return violation('hang', text)
            if not r.ok:
                cov['raised'] = cov.get('raised', 0) + 1
                if want is not None and not hit and k not in bad:
                    return violation('raised', '%s: %r' % (text, r))
                continue
            if want is None:
                return violation('phantom', '%s: there is no such design' % text)
            if k in bad:
                return violation('phantom', '%s: returned a design although its file is %s' % (text, bad[k]))
            pts, wts = (r.value, None) if want[1] is None else r.value
            x = None
            if not isinstance(pts, np.ndarray) or pts.shape != want[0].shape:
                x = 'shape %s instead of %s' % (getattr(pts, 'shape', type(pts)), want[0].shape)
            elif not np.array_equal(pts, want[0]):
                x = diff(pts, want[0], 0, 0) or 'values differ'
            elif wts is not None:
                x = diff(wts, want[1], 1e-12, 0)
                x = x and 'weights: ' + x
            if x:
                return violation('wrong', '%s: %s' % (text, x))
            if e != d:
                cov['next degree'] = cov.get('next degree', 0) + 1
                if not [q for q in w[w0:] if 'Warning' in q[0]]:
                    return violation('silent', '%s: gave degree %d without a warning' % (text, e))
            out['loads'] += 1
            cov['load ' + k] = cov.get('load ' + k, 0) + 1
            for a in (pts, wts):
                if a is None or not a.flags.writeable:
                    continue
                if o['scribble'] == 'zero':
                    a[...] = 0
                elif o['scribble'] == 'nan' and a.dtype.kind == 'f':
                    a[::2] = np.nan
                elif o['scribble'] == 'sort':
                    a.sort(axis=0)
                elif o['scribble'] == 'resize' and a.flags.owndata:
                    try:
                        a.resize((2,) + a.shape[1:], refcheck=False)
                    except ValueError:
                        pass
        return None


CHECK = C14()
