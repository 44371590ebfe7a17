"""C15: SDM, HRIR and SOFA files load exactly what is stored or raise, leave no file open, and failures leave no trace."""
import os
from .common import *
from simkit import boot, fs as simfs


class Data:
    """Content of one measurement file."""

    def __init__(self, kind, v):
        rng = rng_of(v)
        self.kind = kind
        self.fs = int(rng.choice([44100, 48000, 96000, 16000, 22050]))
        self.g = g = int(rng.choice([2, 3, 5, 9, 17, 40]))
        self.n = n = int(rng.choice([2, 3, 8, 33, 64]))
        self.azi = rng.uniform(-np.pi, 2 * np.pi, g)
        self.zen = rng.uniform(0, np.pi, g)
        self.l, self.r = rng.normal(size=(2, g, n))
        self.dtype = rng.choice(['f8', 'f8', 'f4', 'i2'])
        if self.dtype == 'i2':
            self.l, self.r = np.round(self.l * 100), np.round(self.r * 100)
        else:
            self.l, self.r = [np.array(x, self.dtype).astype(float) for x in (self.l, self.r)]
        if kind == 'sdm':
            self.g = g = int(rng.choice([2, 5, 40, 300]))
            self.h = np.array(rng.normal(size=g), 'f8')
            self.azi, self.zen = rng.uniform(-np.pi, 2 * np.pi, g), rng.uniform(0, np.pi, g)
            k = rng.random()
            if k < .6:
                self.azi[rng.random(g) < .4] = np.nan
                self.zen[rng.random(g) < (.4 if k < .3 else 0)] = np.nan
            if k < .1:
                self.azi[:] = self.zen[:] = np.nan
        if kind == 'sofa':
            self.ele = np.rad2deg(np.pi / 2 - self.zen)
            self.deg = np.rad2deg(self.azi)
            if rng.random() < .3:
                self.ele[0] = 90. if rng.random() < .5 else -90.
        self.scheme = [bool(b) for b in rng.random(3) < .5]
        self.row = bool(rng.random() < .5)
        self.compress = bool(rng.random() < .3)
        self.extra = bool(rng.random() < .4)
        self.gz = bool(rng.random() < .3)
        self.order = rng.permutation(6)

    def entries(self):
        sh = (lambda x: x[None, :]) if self.row else (lambda x: x[:, None])
        s = self.scheme
        if self.kind == 'hrir':
            d = {'hrir_l': self.l.astype(self.dtype), 'hrir_r': self.r.astype(self.dtype), 'azi': sh(self.azi), 'zen': sh(self.zen),
                 'fs' if s[0] else 'SamplingRate': self.fs}
        elif self.kind == 'sdm':
            d = {'h_ref' if s[0] else 'p': sh(self.h), 'sdm_azi' if s[1] else 'sdm_phi': sh(self.azi),
                 'sdm_zen' if s[2] else 'sdm_theta': sh(self.zen), 'fs': self.fs}
        else:
            d = {'Data.IR': np.stack([self.l, self.r], 1), 'Data.SamplingRate': np.array([float(self.fs)]),
                 'SourcePosition': np.c_[self.deg, self.ele, np.full(self.g, 1.7)]}
        if self.extra:
            d['comment'] = np.arange(5.)
        k = list(d)
        return {k[i]: d[k[i]] for i in self.order if i < len(k)}

    def write(self, path, drop=None):
        d = self.entries()
        if drop is not None:
            k = [k for k in sorted(d) if k != 'comment']
            self.dropped = k[drop % len(k)]
            d.pop(self.dropped)
        if self.kind == 'sofa':
            import h5py
            with h5py.File(path, 'w') as f:
                for k, v in d.items():
                    f.create_dataset(k, data=v, **(dict(compression='gzip') if self.gz and v.ndim > 1 else {}))
                f.attrs['Conventions'] = 'SOFA'
        else:
            from scipy.io import savemat
            with simfs._open(path, 'wb') as f:
                savemat(f, d, do_compression=self.compress)


class C15(Check):
    id = 'C15'
    fault_kinds = {'fs.open': ['EACCES', 'EMFILE', 'EIO', 'ENOENT', 'ENOMEM'], 'fs.read': ['EIO', 'EIO', 'ENOMEM', 'short', 'MemoryError'],
                   'fs.close': ['EIO'], 'line': ['MemoryError', 'KeyboardInterrupt']}

    def scenario(self, rng):
        ops = []
        for _ in range(rng.randint(2, 8)):
            r = rng.random()
            f = rng.randrange(2)
            if r < .25 or not ops:
                ops.append(dict(op='store', f=f, kind=rng.choice(['sdm', 'hrir', 'sofa']), v=rng.randrange(10 ** 6)))
            elif r < .45:
                ops.append(dict(op='damage', f=f, v=rng.randrange(10 ** 6), how=rng.choice(
                    ['missing', 'truncated', 'truncated', 'truncated', 'directory', 'garbage', 'empty', 'text', 'drop', 'drop', 'drop'])))
            else:
                ops.append(dict(op='load', f=f, as_=rng.choice(['own'] * 8 + ['sdm', 'hrir', 'sofa']), home=rng.random() < .3,
                                init_nan=rng.choice([True, True, False, None]), rate=rng.choice(['own'] * 4 + ['other']),
                                via=rng.choice(['hrirs', 'hrirs', 'data', 'sh', 'shc']), scribble=rng.random() < .4,
                                N=rng.choice([0, 1, 2])))
        return dict(ops=ops, nfaults=rng.choice([0, 1, 1, 2]), lines=rng.random() < .2)

    def shrink(self, scn):
        return shrink_list(scn, 'ops')

    def choose_faults(self, rng, hits, scn):
        if scn['lines'] and hits.get('line'):
            return [dict(site='line', nth=rng.randrange(hits['line']), kind=rng.choice(self.fault_kinds['line']))]
        return super().choose_faults(rng, {k: v for k, v in hits.items() if k != 'line'}, scn)

    def nontrivial(self, scn, faults, res):
        return res['info'].get('loads', 0) > 0

    def execute(self, scn, faults, strategy, out):
        with simenv(scn, faults, strategy, budget=3000000, trace='line') as sim:
            out['sim'] = sim
            if scn['lines']:
                line_fault(sim)
            else:
                sim.trace = None
            sim.faults.enabled = False
            spa = sim.load_main()
            out['cover'] = {}
            out['loads'] = 0
            st, hist = {}, []
            for o in scn['ops']:
                v = self.step(sim, spa, scn, o, st, hist, out)
                if v:
                    return v
            # the next loads work
            for f in sorted(st):
                if st[f][1] is not None:
                    v = self.step(sim, spa, scn, dict(op='store', f=f, kind=st[f][0].kind if st[f][0] else 'sdm', v=7 + f), st, hist, out)
                    if v:
                        return v
                v = self.step(sim, spa, dict(scn, lines=False), dict(op='load', f=f, as_='own', home=False, init_nan=True, rate='own', via='hrirs',
                                                                     scribble=False, N=1, calm=True), st, hist, out)
                if v:
                    return v
            out['digest'] = digest([hist])
        return None

    def path(self, f):
        d = os.path.join(simfs.scratch(), 'room.%d' % (f % 2))           # the same names in two folders
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, 'file%d.dat.mat' % (f // 2))

    def step(self, sim, spa, scn, o, st, hist, out):
        cov = out['cover']
        p = self.path(o['f'])
        if o['op'] == 'store':
            if os.path.isdir(p):
                simfs.R['rmdir'](p)
            d = Data(o['kind'], o['v'])
            d.write(p)
            st[o['f']] = (d, None)
            hist.append('store %s %d' % (o['kind'], o['f']))
            return None
        if o['op'] == 'damage':
            d, was = st.get(o['f'], (None, None))
            if d is None or was is not None:
                return None
            rng = rng_of(o['v'])
            how = o['how']
            with simfs._open(p, 'rb') as f:
                b = f.read()
            if how == 'drop':
                d.write(p, drop=int(rng.integers(20)))
                how = 'without ' + d.dropped
            elif how in ('missing', 'directory'):
                simfs.R['remove'](p)
                if how == 'directory':
                    simfs.R['mkdir'](p)
            else:
                b = {'truncated': lambda: b[:rng.integers(1, len(b))], 'garbage': lambda: rng.bytes(len(b)), 'empty': lambda: b'',
                     'text': lambda: b'<html>not found</html>' * 30}[how]()
                with simfs._open(p, 'wb') as f:
                    f.write(b)
            st[o['f']] = (d, how)
            hist.append('%d is %s' % (o['f'], how))
            return None
        d, damage = st.get(o['f'], (None, 'missing'))
        kind = o['as_'] if o['as_'] != 'own' else d.kind if d else 'sdm'
        name = '~/' + os.path.relpath(p, simfs.scratch()) if o['home'] else p
        rate = d.fs if d else 48000
        if o['rate'] == 'other':
            rate = 44100 if rate != 44100 else 48000
        via = o['via'] if kind == 'sofa' else kind
        if kind == 'sdm':
            f, a, k = spa.io.load_sdm, (name,), {} if o['init_nan'] is None else dict(init_nan=o['init_nan'])
        elif kind == 'hrir':
            f, a, k = spa.io.load_hrirs, (rate, name), {}
        elif via == 'data':
            f, a, k = spa.io.load_sofa_data, (name,), {}
        elif via == 'hrirs':
            f, a, k = spa.io.load_sofa_hrirs, (name,), {}
        else:
            f, a, k = spa.io.sofa_to_sh, (name, o['N']), {} if via == 'sh' and o['init_nan'] is None else dict(
                sh_type='real' if via == 'sh' else 'complex')
        n0 = len(sim.faults.fired)
        sim.faults.enabled = not o.get('calm')
        held = []
        r = self.guarded(sim, scn['lines'], f, a, k, held)
        sim.faults.enabled = False
        open_ = simfs.open_handles()
        held.clear()
        hit = len(sim.faults.fired) > n0
        hist.append('%s %d%s' % (f.__name__, o['f'], '' if r.ok else '=' + (type(r.exc).__name__ if r.exc else 'hang')))
        text = ' '.join(hist[-7:])
        if r.hang:
            return violation('hang', text)
        if open_ and not scn['lines']:       # (an interrupt right at the end of a with block skips it: not claimed)
            return violation('open', '%s: left open: %s' % (text, [os.path.basename(x) for x in open_]))
        if sim.stats.get('net.requests'):
            return violation('download', '%s: asked for a file, contacted the network' % text)
        wrong = d is None or kind != d.kind or (kind == 'hrir' and rate != d.fs)
        key = '%s %s' % (f.__name__, 'ok' if r.ok else 'raised')
        cov[key] = cov.get(key, 0) + 1
        if not r.ok:
            if not (hit or wrong or damage):
                if kind == 'sofa' and via in ('sh', 'shc') and isinstance(r.exc, np.linalg.LinAlgError):
                    return None
                return violation('raised', '%s: %r' % (text, r))
            return None
        if damage and damage.startswith('without') and via == 'data':
            full = dict(d.entries())
            full.pop(d.dropped)
        elif wrong or (damage and damage != 'truncated'):
            if via == 'data' and d is not None and not damage:
                return None
            return violation('accepted', '%s: loaded although %s' % (text, damage or 'it holds other data or another sampling rate'))
        else:
            full = d.entries()
        x = self.compare(spa, o, d, kind, via, r.value, full, damage)
        if x:
            return violation('wrong', '%s: %s' % (text, x))
        out['loads'] += 1
        if o['scribble']:
            for q in (r.value.values() if isinstance(r.value, dict) else r.value if isinstance(r.value, tuple)
                      else [r.value.left, r.value.right, r.value.azi, r.value.zen]):
                if isinstance(q, np.ndarray) and q.flags.writeable and q.dtype.kind in 'fc':
                    q[...] = 7.5
        return None

    def guarded(self, sim, lines, f, a, k, held):
        """call() that keeps the exception with its frames alive for a while."""
        import sys

        def g():
            try:
                return f(*a, **k)
            except Exception as e:
                held.append((e, e.__traceback__, sys.exc_info()))
                raise
        return traced(sim, g) if lines else call(g)

    def compare(self, spa, o, d, kind, via, v, full, damage):
        if kind == 'sdm':
            h, azi, zen, fs = v
            wa, wz = d.azi.copy(), d.zen.copy()
            if o['init_nan'] is not False:
                wa[np.isnan(wa)] = 0
                wz[np.isnan(wz)] = np.pi / 2
            x = None if fs == d.fs else 'fs %r' % (fs,)
            for n, q, w in (('pressure', h, d.h), ('azimuth', azi, wa), ('zenith', zen, wz)):
                q = np.asarray(q)
                x = x or (None if q.shape == w.shape and np.array_equal(q, w, equal_nan=True) else '%s differs: %s' % (
                    n, diff(q, w, 0, 0) if q.shape == w.shape else q.shape))
            return x
        if kind == 'hrir' or via == 'hrirs':
            azi, zen = (d.azi, d.zen) if kind == 'hrir' else (np.deg2rad(d.deg), np.pi / 2 - np.deg2rad(d.ele))
            tol = 0 if kind == 'hrir' else 1e-12
            return diff(v.fs, d.fs, 0, 0, 'fs') or diff(np.asarray(v.left), d.l, 0, 0, 'left') or \
                diff(np.asarray(v.right), d.r, 0, 0, 'right') or diff(np.asarray(v.azi), azi, tol, tol, 'azi') or \
                diff(np.asarray(v.zen), zen, tol, tol, 'zen')
        if via == 'data':
            if set(v) != set(full):
                return 'entries %s' % sorted(v)
            for k in sorted(full):
                w = np.squeeze(full[k])
                if np.shape(v[k]) != w.shape or not np.array_equal(v[k], w):
                    return 'entry %s differs' % k
            return None
        c, fs = v
        if fs != d.fs:
            return 'fs %r' % (fs,)
        t = 'real' if via == 'sh' else 'complex'
        Y = spa.sph.sh_matrix(o['N'], np.deg2rad(d.deg), np.pi / 2 - np.deg2rad(d.ele), t)
        sv = np.linalg.svd(Y, compute_uv=False)
        if sv[-1] < 1e-6 * sv[0]:
            return None                          # not determined
        w = np.stack([np.linalg.lstsq(Y, q.astype(Y.dtype), rcond=None)[0] for q in (d.l, d.r)])
        return diff(np.asarray(c), w, 1e-6 * max(1, sv[0] / sv[-1]))


CHECK = C15()
