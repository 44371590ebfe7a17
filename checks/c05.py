"""C05: SSR BRIR files: right response for every angle and ear, for every schedule; a reported success is complete."""
import os
import soundfile as sf
from .common import *
from simkit import fs as simfs

REAL_READ = sf.read


def read_wav(path):
    """Content of a written file, outside the simulated disk."""
    with open(path, 'rb') as f:
        data = f.read()
    import io
    return sf.read(io.BytesIO(data), always_2d=True)


class C05(Check):
    id = 'C05'
    fault_kinds = {'fs.write': ['ENOSPC', 'EIO', 'short'], 'fs.open.w': ['EACCES', 'ENOSPC', 'EMFILE'],
                   'pool.alloc': ['EMFILE', 'ENOMEM'], 'proc.start': ['EAGAIN', 'ENOMEM'],
                   'task': ['MemoryError'], 'sem.alloc': ['ENOSPC']}

    def scenario(self, rng):
        kind = rng.choice(['ls', 'ls', 'ls', 'sdm'])
        big = rng.random() < .06
        return dict(kind=kind, g=rng.choice([3, 7, 12, 30]), taps=rng.choice([4, 9, 16] if not big else [128, 256]),
                    n=rng.choice([1, 3, 8]) if not big else rng.choice([25, 40] if kind == 'sdm' else [64, 700]),
                    jobs=rng.choice([1, 2, 3, 5, None, 7, 7, 11, 13, 16]) if kind == 'ls' else 1, cpu=rng.choice([1, 2, 3, 5, 7, 8]),
                    method=rng.choice(METHODS), seed=rng.randrange(10 ** 6), loud=rng.choice([0.02, 0.02, 1.0, 3.0]),
                    subtype=rng.choice(['FLOAT', 'FLOAT', 'DOUBLE', 'PCM_24', 'PCM_16']), ext=rng.random() < 0.7,
                    exists=rng.random() < 0.3, fs=rng.choice([44100, 48000]), nfaults=1 if rng.random() < 0.3 else 0,
                    default=rng.random() < 0.1, silent=rng.random() < 0.3,
                    peak=rng.choice([None, None, .97, 1.03, -.97, -1.03, -2.]), a=rng.choice([1, 1, 1, 0, 2, .5]), shift=rng.random() < .2)

    def shrink(self, scn):
        return shrink_ints(scn, dict(g=3, taps=4, n=1, jobs=1, cpu=1)) + [
            dict(scn, **{k: v}) for k, v in (('a', 1), ('shift', False), ('peak', None), ('silent', False)) if scn[k] != v]

    def nontrivial(self, scn, faults, res):
        return res['switches'] > 2 or bool(res['fired']) or scn['kind'] == 'sdm'

    def execute(self, scn, faults, strategy, out):
        with simenv(scn, faults, strategy, budget=400000) as sim:
            out['sim'] = sim
            spa = sim.load_main()
            rng = rng_of(scn['seed'])
            h = hrir_data(rng, scn['g'], scn['taps'])
            fs = scn['fs']
            # no head orientation may be close to a tie between two HRIR directions
            step = np.deg2rad(np.arange(360))
            if scn['kind'] == 'ls':
                pts = setup_points(rng)
                origin = rng.normal(size=3) * .1 if scn['shift'] else np.zeros(3)
                azi, zen = to_sph(pts / np.linalg.norm(pts, axis=1)[:, None])
                r = np.linalg.norm(pts, axis=1)
                irs = rng.normal(size=(len(pts), scn['n'])) * scn['loud']
                for x in irs:
                    if np.max(np.abs(x)) < 5e-3:
                        x[0] = 5e-3
                if scn['silent']:
                    irs[rng.integers(len(pts))] = 0.
            else:
                p = rng.normal(size=scn['n']) * scn['loud']
                azi, zen = to_sph(sphere_points(rng, scn['n']))
            for _ in range(50):
                if all(nearest(azi - s, zen, h['azi'], h['zen'])[1] > 1e-8 for s in step):
                    break
                h = hrir_data(rng, scn['g'], scn['taps'])
            else:
                return None
            want = np.zeros((720, scn['n'] + scn['taps'] - 1))
            for a in range(360):
                idx, _ = nearest(azi - step[a], zen, h['azi'], h['zen'])
                for j, i in enumerate(idx):
                    for e, ear in enumerate((h['left'], h['right'])):
                        if scn['kind'] == 'ls':
                            want[2 * a + e] += np.convolve(irs[j] / r[j] ** scn['a'], ear[i])
                        else:
                            want[2 * a + e, j:j + scn['taps']] += p[j] * ear[i]
            peak = np.max(np.abs(want))
            if scn['peak'] is not None:
                # the largest peak just below or above one, of the chosen sign
                f = scn['peak'] / want.flat[np.argmax(np.abs(want))]
                want = want * f
                if scn['kind'] == 'ls':
                    irs = irs * f
                else:
                    p = p * f
                peak = abs(scn['peak'])
            if scn['kind'] == 'ls':
                level = np.max(np.abs(irs), axis=1) / r ** scn['a']
                if np.any((level > 0) & (level < 1.2e-5)):
                    return None           # signals below -100 dB are skipped by design
            if peak > 1:
                want = want / peak
            hr = spa.sig.HRIRs(h['left'].copy(), h['right'].copy(), h['azi'].copy(), h['zen'].copy(), fs)
            sim.faults.enabled = False
            if scn['default']:
                from scipy.io import savemat
                d = os.path.join(simfs.root(), 'checkout', 'data', 'HRIRs')
                os.makedirs(d, exist_ok=True)
                savemat(os.path.join(d, 'HRIRs_default_%d.mat' % fs),
                        dict(hrir_l=h['left'], hrir_r=h['right'], azi=h['azi'], zen=h['zen'], fs=fs))
            name = os.path.join(simfs.scratch(), 'brirs')
            path = name + '.wav'
            if scn['exists']:
                with open(path, 'wb') as f:
                    f.write(b'something else')
            arg = name + ('.wav' if scn['ext'] else '')
            k = dict(subtype=scn['subtype'])
            if not scn['default']:
                k['hrirs'] = hr
            sim.faults.enabled = True
            if scn['kind'] == 'ls':
                ls = spa.decoder.LoudspeakerSetup(*[c.copy() for c in (pts + origin).T], listener_position=origin)
                ls.a = scn['a']
                o = call(spa.io.write_ssr_brirs_loudspeaker, arg, irs.copy(), ls, fs, jobs_count=scn['jobs'], **k)
            else:
                o = call(spa.io.write_ssr_brirs_sdm, arg, p.copy(), azi.copy(), zen.copy(), fs, **k)
            sim.faults.enabled = False
            fired = [f for f in sim.faults.fired if f['kind'] != 'short']
            what = '%s (jobs %r, %s, %s)' % (scn['kind'], scn['jobs'], scn['method'], scn['subtype'])
            out['outcome'] = repr(o)
            out['cover'] = {'input ' + scn['kind']: 1, 'subtype ' + scn['subtype']: 1,
                            'raised' if not o.ok else 'written': 1}
            if not o.ok:
                if not fired:
                    return violation('no-file', 'writing BRIRs %s: %r' % (what, o))
                return None
            try:
                got, gfs = read_wav(path)
            except Exception as e:
                return violation('incomplete', 'BRIR file %s reported as written is unreadable: %s' % (what, e))
            if gfs != fs:
                return violation('rate', 'BRIR file %s has rate %d instead of %d' % (what, gfs, fs))
            q = {'FLOAT': 1e-6, 'DOUBLE': 1e-9, 'PCM_24': 2.0 ** -22, 'PCM_16': 2.0 ** -14}[scn['subtype']]
            if got.T.shape != want.shape:
                return violation('incomplete', 'BRIR file %s: %s channels x samples instead of %s'
                                 % (what, got.T.shape, want.shape))
            bad = np.abs(got.T - want) > q * max(1.0, np.max(np.abs(want)))
            if bad.any():
                c = int(np.argwhere(bad)[0][0])
                return violation('wrong', 'BRIR file %s: channel %d (%s ear at %d degrees) is wrong by %g'
                                 % (what, c, 'right' if c % 2 else 'left', c // 2, np.max(np.abs(got.T - want)[c])))
            with simfs._open(path, 'rb') as f:
                out['digest'] = digest(np.round(want, 6))
        return None


CHECK = C05()
