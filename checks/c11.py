"""C11: audio files round-trip through any history of saves and loads; an incomplete save and a failed load raise."""
import io as _io
import os
import soundfile as _sf
from .common import *
from simkit import fs as simfs

STEP = {'FLOAT': 2.0 ** -23, 'DOUBLE': 1e-15, 'PCM_16': 2.0 ** -15, 'PCM_24': 2.0 ** -23, 'PCM_32': 2.0 ** -30,
        'PCM_U8': 2.0 ** -7, 'PCM_S8': 2.0 ** -7}
WAV = ['FLOAT', 'FLOAT', 'FLOAT', 'DOUBLE', 'PCM_16', 'PCM_16', 'PCM_24', 'PCM_32', 'PCM_U8']
RATES = [44100, 48000, 96000, 8000, 22050]


def stored(x, sub):
    """What the file may hold for the samples x: (lowest, highest)."""
    x = np.array(x, float)
    q = STEP[sub]
    if sub in ('FLOAT', 'DOUBLE'):
        e = np.abs(x) * q + 1e-300
        return x - e - (1e-37 if sub == 'FLOAT' else 0), x + e + (1e-37 if sub == 'FLOAT' else 0)
    q *= 1.02
    return np.clip(x - q, -1.0 - q, 1.0 - q), np.clip(x + q, q - 1.0, 1.0 + q)


class Rec:
    def __init__(self, ch, fs, sub):
        self.ch, self.fs, self.sub = [np.array(c, float) for c in ch], fs, sub


class C11(Check):
    id = 'C11'
    needs = ('resampy',)
    fault_kinds = {'fs.write': ['ENOSPC', 'EIO', 'short', 'EIO', 'ENOSPC'], 'fs.open.w': ['EACCES', 'ENOSPC', 'EMFILE', 'EROFS'],
                   'fs.open': ['EMFILE', 'EACCES', 'EIO'], 'fs.read': ['short']}

    def scenario(self, rng):
        def ops():
            out = []
            seen = []

            def pick():
                return rng.choice(seen) if seen and rng.random() < 0.93 else rng.randrange(4)
            for i in range(rng.randint(2, 9)):
                r = 0 if not i else rng.random()
                if r < 0.45:
                    out.append(dict(op='save', kind=rng.choice(['mono', 'multi', 'multi', 'ambi', 'array', 'vector', 'method']),
                                    f=rng.randrange(4), c=rng.choice([1, 2, 3, 5, 9]), n=rng.choice([1, 2, 7, 40, 333, 5000]),
                                    fs=rng.choice(RATES[:2] * 4 + RATES), sub=rng.choice(WAV), give=rng.choice([None] * 4 + ['same', 'same', 'other']),
                                    amp=rng.choice([.3, .3, .3, 2.5, 1e-4, 0]), v=rng.randrange(10 ** 6),
                                    path=rng.choice(['abs'] * 6 + ['home'] * 4 + ['nodir']), strided=rng.random() < 0.4))
                    seen.append(out[-1]['f'])
                elif r < 0.85:
                    out.append(dict(op='load', f=[pick() for _ in range(rng.choice([1, 1, 1, 2, 3]))],
                                    form=rng.choice(['str', 'list', 'tuple']), give=rng.choice([None, None, None, 'same', 'same', 'other']),
                                    path=rng.choice(['abs', 'home', 'abs', 'missing' if rng.random() < .2 else 'abs']),
                                    poke=rng.random() < 0.4))
                else:
                    out.append(dict(op='from_file', f=pick(), cls=rng.choice(['MonoSignal', 'MultiSignal', 'AmbiBSignal']),
                                    give=rng.choice([None, 'same', 'other'])))
            return out
        return dict(threads=[ops() for _ in range(rng.choice([1, 1, 1, 2]))], nfaults=rng.choice([0, 0, 1, 1, 2]),
                    left=rng.choice([None] * 16 + [60, 300, 2000, 9000]), trace=rng.choice([None, None, 'line']),
                    flac=rng.random() < 0.25)

    def choose_faults(self, rng, hits, scn):
        f = super().choose_faults(rng, hits, scn)
        return list({(x['site'], x['nth']): x for x in f}.values())

    def shrink(self, scn):
        out = []
        if len(scn['threads']) > 1:
            out += [dict(scn, threads=[t]) for t in scn['threads']]
        for i, t in enumerate(scn['threads']):
            for s in shrink_list(dict(ops=t), 'ops'):
                out.append(dict(scn, threads=scn['threads'][:i] + [s['ops']] + scn['threads'][i + 1:]))
        if scn['left'] is not None:
            out.append(dict(scn, left=None))
        if scn['flac']:
            out.append(dict(scn, flac=False))
        return out

    def nontrivial(self, scn, faults, res):
        return res['info'].get('loads', 0) > 0

    def execute(self, scn, faults, strategy, out):
        with simenv(scn, faults, strategy, trace=scn['trace'] if len(scn['threads']) > 1 else None, budget=2000000) as sim:
            out['sim'] = sim
            spa = sim.load_main()
            sim.env['disk_left'] = scn['left']
            out['cover'] = {}
            out['loads'] = 0
            found = []

            def body(i):
                return lambda: found.append(self.history(sim, spa, scn, i, out))
            if len(scn['threads']) == 1:
                return self.history(sim, spa, scn, 0, out)
            sim.main.nopreempt += 1
            ts = [sim.task('user%d' % i, body(i)) for i in range(len(scn['threads']))]
            sim.main.nopreempt -= 1
            try:
                sim.join(ts)
            except SimHang:
                return violation('hang', 'saving or loading never returns')
            for t in ts:
                if t.exc is not None:
                    raise HarnessError('%r' % t.exc)
            return next((v for v in found if v), None)

    def history(self, sim, spa, scn, who, out):
        names = ['u%d %s.%s' % (who, n, 'flac' if scn['flac'] and n in 'bd' else 'wav') for n in 'abcd']
        names[2] = os.path.join('take.2', names[0])          # the same name in another folder
        os.makedirs(os.path.join(simfs.scratch(), 'take.2'), exist_ok=True)
        files = {}             # name -> Rec, or absent (never saved), or None (anything)
        hist = []
        cov = out['cover']
        home = simfs.scratch()
        # one thread at a time between the calls; faults are off there
        n_ops = 0

        def path(n, how='abs'):
            return {'abs': os.path.join(home, n), 'home': '~/' + n, 'nodir': os.path.join(home, 'no such dir', n),
                    'missing': os.path.join(home, 'missing ' + n.replace(os.sep, ' '))}[how]

        def quiet(f):
            t = current_task()
            t.nopreempt += 1
            on, left = sim.faults.enabled, sim.env.get('disk_left')
            sim.faults.enabled = False
            sim.env['disk_left'] = None
            try:
                return f()
            finally:
                t.nopreempt -= 1
                sim.faults.enabled = on
                sim.env['disk_left'] = left

        def on_disk(n):
            r = files[n]
            try:
                with simfs._open(path(n), 'rb') as g:
                    b = g.read()
                f = _sf.SoundFile(_io.BytesIO(b))
                got, fs, sub = f.read(always_2d=True), f.samplerate, f.subtype
            except Exception as e:
                return 'the file cannot be read: %r' % e
            return self.check(r, got.T, fs) or (None if sub == r.sub else 'stored as %s instead of %s' % (sub, r.sub))

        def hits():
            return len(sim.faults.fired) + sim.stats.get('disk_full', 0)
        for op in scn['threads'][who]:
            n0 = hits()
            if op['op'] == 'save':
                n = names[op['f']]
                sub = op['sub']
                if n.endswith('flac'):
                    sub = sub if sub in ('PCM_16', 'PCM_24') else 'PCM_16'
                obj, ch, fs = self.make(spa, op)
                if n.endswith('flac') and len(ch) > 8:
                    continue
                other = RATES[(RATES.index(fs) + 1) % len(RATES)]
                k = {}
                if op['give']:
                    k['fs'] = fs if op['give'] == 'same' else other
                conflict = op['give'] == 'other'
                if op['kind'] in ('array', 'vector'):
                    k['fs'] = fs
                    conflict = False
                p = path(n, op['path'])
                before = [c.copy() for c in ch]
                if op['kind'] == 'method':
                    conflict = False
                    o = call(obj.save, p, subtype=sub)
                else:
                    o = call(spa.io.save_audio, obj, p, subtype=sub, **k)
                hit = hits() > n0
                hist.append('save %s as %s %s%s' % (op['kind'], n, sub, '' if o.ok else ' = %s' % type(o.exc).__name__))
                cov['save ' + op['kind'] + ('' if o.ok else ' failed')] = cov.get('save ' + op['kind'] + (
                    '' if o.ok else ' failed'), 0) + 1
                what = ' -> '.join(hist[-6:])
                if conflict:
                    if o.ok:
                        return violation('conflict', '%s: saving a %d Hz signal as %d Hz was accepted' % (what, fs, other))
                    if n in files and files[n] is not None:
                        d = quiet(lambda: on_disk(n))
                        if d:
                            return violation('conflict', '%s: a rejected save damaged the file: %s' % (what, d))
                    continue
                if op['path'] == 'nodir':
                    if o.ok:
                        return violation('lost', '%s: saving into a directory that does not exist was accepted' % what)
                    continue
                if not o.ok:
                    if not hit:
                        return violation('raised', '%s: %r' % (what, o))
                    files[n] = None
                    continue
                files[n] = Rec(ch, fs, sub)
                d = quiet(lambda: on_disk(n))
                if d:
                    return violation('incomplete' if hit else 'wrong', '%s reported as saved%s: %s' % (
                        what, ' although the disk failed' if hit else '', d),
                        'flac-write-error-at-close' if hit and n.endswith('flac') else None)
                d = quiet(lambda: diff([np.array(c) for c in ([obj.signal] if hasattr(obj, '_signal') else obj.get_signals() if
                                                              hasattr(obj, 'channels') else obj.T if obj.ndim > 1 else [obj])],
                                       before, 0, 0))
                if d:
                    return violation('modified', '%s changed the signal: %s' % (what, d))
            else:
                sel = op['f'] if op['op'] == 'load' else [op['f']]
                ns = [names[i] for i in sel]
                missing = op.get('path') == 'missing'
                known = all(files.get(n) is not None for n in ns)
                recs = [files.get(n) for n in ns]
                k = {}
                if op['give']:
                    f0 = recs[0].fs if recs[0] else 48000
                    k['fs'] = f0 if op['give'] == 'same' else RATES[(RATES.index(f0) + 1) % len(RATES)]
                ps = [path(n, op.get('path', 'abs')) for n in ns]
                if op['op'] == 'load':
                    arg = ps[0] if op['form'] == 'str' and len(ps) == 1 else tuple(ps) if op['form'] == 'tuple' else ps
                    keep = list(ps)
                    o = call(spa.io.load_audio, arg, **k)
                else:
                    o = call(getattr(spa.sig, op['cls']).from_file, ps[0], **k)
                hit = hits() > n0
                hist.append('%s %s %s%s' % (op.get('cls', 'load'), ' + '.join(ns), op['give'] or '',
                                            '' if o.ok else ' = %s' % type(o.exc).__name__))
                what = ' -> '.join(hist[-6:])
                if o.hang:
                    return violation('hang', '%s never returns' % what)
                if missing or any(n not in files for n in ns):
                    if o.ok:
                        return violation('phantom', '%s: a file that does not exist was loaded' % what)
                    cov['load missing'] = cov.get('load missing', 0) + 1
                    continue
                if not known:
                    continue              # left behind by a failed save: any outcome
                bad = op['give'] == 'other' or len({r.fs for r in recs}) > 1
                ch = [c for r in recs for c in r.ch]
                subs = [r.sub for r in recs for _ in r.ch]
                if op['op'] == 'from_file':
                    bad = bad or {'MonoSignal': len(ch) != 1, 'MultiSignal': len(ch) == 1, 'AmbiBSignal': len(ch) != 4}[op['cls']]
                cov['load' + (' rejected' if not o.ok else ' %d files' % len(ns))] = cov.get(
                    'load' + (' rejected' if not o.ok else ' %d files' % len(ns)), 0) + 1
                if bad:
                    if o.ok:
                        return violation('conflict', '%s: rates %s (asked for %s), %d channels accepted' % (
                            what, [r.fs for r in recs], k.get('fs'), len(ch)))
                    continue
                if not o.ok:
                    if not hit:
                        return violation('raised', '%s: %r' % (what, o))
                    continue
                out['loads'] += 1
                x = o.value
                cls = {'from_file': op.get('cls')}.get(op['op']) or ('MonoSignal' if len(ch) == 1 else 'MultiSignal')
                if type(x) is not getattr(spa.sig, cls):
                    return violation('wrong', '%s: loaded a %s instead of a %s' % (what, type(x).__name__, cls))
                got = [x.signal] if cls == 'MonoSignal' else [c.signal for c in x.channels]
                d = self.check(Rec(ch, recs[0].fs, None), got, x.fs, subs)
                if d is None and cls != 'MonoSignal' and any(c.fs != recs[0].fs for c in x.channels):
                    d = 'channel with another sampling rate'
                if d:
                    return violation('wrong', '%s: %s%s' % (what, d, ' (after an injected %s)' % sim.faults.fired[-1]['site']
                                                            if hit else ''))
                if op.get('poke'):
                    for g in got:
                        if g.flags.writeable and g.size:
                            g[...] = 0.123
        for n, r in sorted(files.items()):
            if r is not None:
                d = quiet(lambda: on_disk(n))
                if d:
                    return violation('wrong', '%s: in the end %s is damaged: %s' % (' -> '.join(hist[-6:]), n, d))
        h = simfs.open_handles()
        if h and len(scn['threads']) == 1:
            return violation('open', '%s: files still open: %s' % (' -> '.join(hist[-6:]), [os.path.basename(p) for p in h]))
        out['digest'] = digest(hist)
        return None

    def make(self, spa, op):
        rng = rng_of(op['v'])
        kind, n, fs = op['kind'], op['n'], op['fs']
        c = {'mono': 1, 'vector': 1, 'ambi': 4, 'method': op['c'] if op['c'] != 2 else 1}.get(kind, op['c'])
        if n * c > 20000:
            n = 5000 // c
        x = rng.uniform(-1, 1, size=(c, n)) * op['amp']
        if op['strided']:
            b = np.zeros((2 * c, n))
            b[::2] = x
            x = b[::2]
        ch = [v.copy() for v in x]
        g = spa.sig
        if kind == 'mono' or kind == 'method' and c == 1:
            return g.MonoSignal(x[0], fs), ch, fs
        if kind == 'ambi':
            return g.AmbiBSignal(list(x), fs=fs), ch, fs
        if kind == 'vector':
            return x[0], ch, fs
        if kind == 'array':
            return x.T, ch, fs
        return g.MultiSignal(list(x), fs=fs), ch, fs

    def check(self, r, got, fs, subs=None):
        if int(fs) != r.fs:
            return 'sampling rate %s instead of %d' % (fs, r.fs)
        if len(got) != len(r.ch):
            return '%d channels instead of %d' % (len(got), len(r.ch))
        for i, (a, b) in enumerate(zip(got, r.ch)):
            a = np.asarray(a)
            if a.shape != b.shape:
                return 'channel %d has shape %s instead of %s' % (i, a.shape, b.shape)
            lo, hi = stored(b, subs[i] if subs else r.sub)
            bad = ~((a >= lo) & (a <= hi))
            if bad.any():
                j = int(np.argmax(bad))
                return 'channel %d sample %d is %r instead of %r (%s, %d of %d samples)' % (
                    i, j, float(a[j]), float(b[j]), subs[i] if subs else r.sub, int(bad.sum()), a.size)
        return None


CHECK = C11()
