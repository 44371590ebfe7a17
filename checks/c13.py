"""C13: the default HRIRs are right or an error for everybody who asks, through crashes, downloads and disks that fail."""
import io
import os
import zipfile
from .common import *
from simkit import boot, fs as simfs

RATES = (44100, 48000, 96000)
NAME = 'SphericalHarmonics/FABIAN_DIR_measured_HATO_0.mat'
_known = {}
_rows = {}            # resampled responses computed before (the resampling itself is pure and belongs to resampy)


def archive(v):
    """Download body and the content of its measurement file."""
    from scipy.io import savemat
    rng = rng_of(v)
    n, bins = [(4, 9), (9, 9), (16, 17)][v % 3]
    l, r = [rng.normal(size=(n, bins)) + 1j * rng.normal(size=(n, bins)) for _ in (0, 1)]
    b = io.BytesIO()
    savemat(b, dict(SH=dict(coeffLeft=l, coeffRight=r, order=int(n ** .5) - 1, a=0., b=0., f=np.arange(bins) * 100.),
                    SamplingRate=44100.))
    mat = b.getvalue()
    z = io.BytesIO()
    names = [('SphericalHarmonics/', b''), (NAME, mat), ('SphericalHarmonics/Lizenz ä.txt', b'cc' * 300), ('readme.txt', b'r' * 9000)]
    if v % 4 == 1:
        names = names[::-1]
    elif v % 4 == 2:
        names = [(NAME, mat)]
    with zipfile.ZipFile(z, 'w', [zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED][v % 2]) as f:
        for name, data in names:
            f.writestr(zipfile.ZipInfo(name, (2020, 1, 1, 0, 0, 0)), data)
    return z.getvalue(), mat, l, r


def expected(v):
    """The sets a user must get, from the definition: inverse transform on the Gauss grid of order 35, resampled."""
    if v in _known:
        return _known[v]
    import resampy
    from scipy.special import sph_harm
    body, mat, l, r = archive(v)
    N = 35
    x, _ = np.polynomial.legendre.leggauss(N + 1)
    zen = np.arccos(x)
    azi = np.arange(2 * N + 2) * np.pi / (N + 1)
    key = lambda a, z: (np.round(np.cos(z), 7), np.round(a % (2 * np.pi), 7) % round(2 * np.pi, 7))
    A, Z = [q.ravel() for q in np.meshgrid(azi, zen)]
    o = int(l.shape[0] ** .5) - 1
    Y = np.stack([sph_harm(m, n, A, Z) for n in range(o + 1) for m in range(-n, n + 1)], 1)
    hl, hr = [np.fft.irfft(Y @ h) for h in (l, r)]
    out = {}
    for fs in RATES:
        a, b = (hl, hr) if fs == 44100 else [resampy.resample(h, 44100, fs, axis=1) for h in (hl, hr)]
        out[fs] = (a, b)
    c, q = key(A, Z)
    _known[v] = (body, mat, out, A, Z, np.lexsort((q, c)), key)
    if len(_known) > 12:
        _known.pop(next(iter(_known)))
    return _known[v] if v in _known else expected(v)


def judge(h, v, fs):
    """None if the set is right."""
    _, _, sets, A, Z, order, key = expected(v)
    if h.fs != fs:
        return 'sampling rate %r instead of %r' % (h.fs, fs)
    l, r, azi, zen = [np.asarray(x) for x in (h.left, h.right, h.azi, h.zen)]
    if azi.shape != A.shape or zen.shape != A.shape:
        return '%s directions instead of %d' % (azi.shape, len(A))
    c, q = key(azi, zen)
    mine = np.lexsort((q, c))
    d = diff(np.cos(zen[mine]), np.cos(Z[order]), 1e-6, 1e-6, 'zenith angles') or \
        diff(np.exp(1j * azi[mine]), np.exp(1j * A[order]), 1e-6, 1e-6, 'azimuth angles')
    d = d or diff(l[mine], sets[fs][0][order], 1e-7, path='left responses') or \
        diff(r[mine], sets[fs][1][order], 1e-7, path='right responses')
    return d


DISK = ['crash', 'crash', 'crash', 'EIO', 'ENOSPC', 'EACCES']


class C13(Check):
    id = 'C13'
    needs = ('resampy',)
    fault_kinds = {'net.get': ['conn', 'timeout', 'http500', 'html', 'truncated', 'truncated', 'corrupt', 'empty', 'crash', 'slow'],
                   'fs.open.w': DISK, 'fs.close': DISK, 'fs.replace': DISK + ['crash-after'] * 2,
                   'fs.write': ['crash', 'crash-mid', 'crash-mid', 'crash-after', 'ENOSPC', 'ENOSPC', 'EIO', 'short'],
                   'fs.mkdir': ['crash', 'crash-after', 'EACCES', 'ENOSPC'], 'fs.remove': ['crash', 'EACCES'],
                   'fs.rmdir': ['crash', 'EACCES'], 'fs.open': ['EACCES', 'EMFILE', 'EIO', 'crash'],
                   'fs.read': ['EIO', 'crash', 'short'], 'proc.start': ['EAGAIN', 'ENOMEM']}

    def scenario(self, rng):
        rounds = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            procs = []
            for _ in range(rng.choice([1, 1, 2, 2, 3])):
                procs.append(dict(reqs=[dict(fs=rng.choice(RATES), direct=rng.random() < 0.15) for _ in range(rng.choice([1, 1, 2]))],
                                  thread=rng.random() < 0.12))
            rounds.append(procs)
        multi = rng.random() < 0.12
        return dict(rounds=rounds, v=0 if multi else rng.randrange(10), start=rng.choice(['nothing', 'nothing', 'nothing', 'dir', 'downloaded', 'empty']),
                    jobs=rng.choice([2, 3, None]) if multi else 1, cpu=rng.choice([1, 2, 3]) if multi else 1,
                    method=rng.choice(METHODS), nfaults=rng.choice([0, 1, 1, 1, 2, 2, 3]),
                    left=rng.choice([None] * 8 + [5000, 300000, 1500000]))

    def shrink(self, scn):
        out = shrink_list(scn, 'rounds')
        for i, procs in enumerate(scn['rounds']):
            for k in range(len(procs)):
                if len(procs) > 1:
                    out.append(dict(scn, rounds=scn['rounds'][:i] + [procs[:k] + procs[k + 1:]] + scn['rounds'][i + 1:]))
                p = procs[k]
                if p['thread']:
                    q = [dict(p, thread=False)]
                    out.append(dict(scn, rounds=scn['rounds'][:i] + [procs[:k] + q + procs[k + 1:]] + scn['rounds'][i + 1:]))
                if len(p['reqs']) > 1:
                    q = [dict(p, reqs=p['reqs'][:1])]
                    out.append(dict(scn, rounds=scn['rounds'][:i] + [procs[:k] + q + procs[k + 1:]] + scn['rounds'][i + 1:]))
        if scn['jobs'] != 1:
            out.append(dict(scn, jobs=1))
        if scn['left'] is not None:
            out.append(dict(scn, left=None))
        return out

    def nontrivial(self, scn, faults, res):
        return res['info'].get('right', 0) > 0 or bool(res['fired'])

    def choose_faults(self, rng, hits, scn):
        out = []
        for f in super().choose_faults(rng, hits, scn):
            if hits.get('net.get') and rng.random() < 0.2:
                f = dict(site='net.get', nth=rng.randrange(hits['net.get']), kind=rng.choice(self.fault_kinds['net.get']))
            if rng.random() < 0.3:                 # close to the end of the generation
                f['nth'] = max(0, hits[f['site']] - 1 - rng.randrange(min(4, hits[f['site']])))
            if f['site'] == 'net.get':
                f['frac'] = rng.choice([.02, .3, .6, .9, .97, .999])
            out.append(f)
        return list({(x['site'], x['nth']): x for x in out}.values())

    def execute(self, scn, faults, strategy, out):
        v = scn['v']
        body, mat = expected(v)[:2]
        top = os.path.join(boot.ROOT, 'checkout', 'data', 'HRIRs')
        if scn['start'] in ('dir', 'empty', 'downloaded'):
            os.makedirs(top)
        if scn['start'] in ('empty', 'downloaded'):
            os.makedirs(os.path.join(top, 'FABIAN', 'SphericalHarmonics'))
        if scn['start'] == 'downloaded':
            with open(os.path.join(top, 'FABIAN', NAME), 'wb') as f:
                f.write(mat)
        with simenv(scn, faults, strategy, budget=3000000) as sim:
            out['sim'] = sim
            sim.env['net_body'] = body
            sim.env['dsp'] = True
            sim.env['resample_memo'] = _rows
            hist = []
            out['cover'] = cov = {}
            out['right'] = 0
            trouble = False
            for i, procs in enumerate(scn['rounds']):
                n0 = len(sim.faults.fired) + sim.stats.get('disk_full', 0)
                if i < len(scn['rounds']) - 1 or len(scn['rounds']) == 1:
                    sim.env['disk_left'] = scn['left']
                x, clean = self.round(sim, scn, procs, v, hist, cov, out,
                                      lambda: len(sim.faults.fired) + sim.stats.get('disk_full', 0) > n0)
                if x:
                    return x
                sim.env['disk_left'] = None
            # all faults stop: the next request works, in a fresh process
            sim.faults.enabled = False
            calm = [dict(reqs=[dict(fs=fs, direct=False)], thread=False) for fs in RATES]
            k = sim.stats.get('net.requests', 0)
            first = v % 3
            x, _ = self.round(sim, scn, calm[first:first + 1], v, hist, cov, out, lambda: False)
            if not x:
                x, _ = self.round(sim, scn, calm, v, hist, cov, out, lambda: False)
            if x:
                return x
            cov['recovered'] = 1
            if sim.stats.get('net.requests', 0) > k:
                cov['recovered by download'] = 1
            out['digest'] = digest([hist])
        return None

    def round(self, sim, scn, procs, v, hist, cov, out, faulty):
        res = []
        ts = []

        def worker(i, p):
            def one(s, q):
                rec = dict(p=i, q=q, o=None)
                res.append(rec)
                if q['direct']:
                    o = call(s.io.get_default_hrirs, jobs_count=scn['jobs'])
                    hist.append('%d: generate%s' % (i, '' if o.ok else '=' + type(o.exc).__name__))
                    if not o.ok:
                        rec['o'] = o
                        rec['gen'] = True
                        return
                o = call(s.io.load_hrirs, q['fs'], jobs_count=scn['jobs'])
                rec['o'] = o
                hist.append('%d: %d%s' % (i, q['fs'], '' if o.ok else '=' + (type(o.exc).__name__ if o.exc else 'hang')))

            def run(s):
                if p['thread']:
                    import threading
                    t = threading.Thread(target=lambda: [one(s, q) for q in p['reqs'][::-1]])
                    t.start()
                for q in p['reqs']:
                    one(s, q)
                if p['thread']:
                    t.join()
                return True
            return run
        for i, p in enumerate(procs):
            ts.append(sim.spawn_process('asker%d' % i, worker(i, p), scn['method'])[1])
        try:
            sim.join(ts)
        except SimHang:
            return violation('hang', '%s: a request for the default HRIRs never returns' % ' '.join(hist)), False
        for t in ts:
            if t.exc is not None:
                raise HarnessError('%r' % (t.exc,))
        bad = faulty()
        for r in res:
            o = r['o']
            fs = r['q']['fs']
            if o is None:
                cov['crashed'] = cov.get('crashed', 0) + 1
                continue
            if o.hang:
                return violation('hang', '%s: request for %d never returns' % (' '.join(hist), fs)), False
            if not o.ok:
                cov['raised'] = cov.get('raised', 0) + 1
                if not bad:
                    return violation('refused', '%s: request for %d without any fault: %r' % (' '.join(hist), fs, o)), False
                continue
            d = judge(o.value, v, fs)
            if d:
                return violation('wrong', '%s: default HRIRs at %d: %s' % (' '.join(hist), fs, d)), False
            out['right'] += 1
            cov['right'] = cov.get('right', 0) + 1
        return None, not bad


CHECK = C13()
