"""C10: signal objects agree with plain arrays after every history of operations, failing ones included."""
import os
from .common import *
from simkit import fs as simfs

RATES = [48000, 44100, 32000, 16000, 22050]
GAIN = np.sqrt(4 * np.pi)


def conv(x, h, mode):
    full = np.convolve(x, h)
    if mode == 'full':
        return full
    if mode == 'same':
        s = (len(full) - len(x)) // 2
        return full[s:s + len(x)]
    m = min(len(x), len(h))
    return full[m - 1:max(len(x), len(h))]


class Model:
    """Plain arrays behind one object."""

    def __init__(self, kind, ch, fs, dirs=None):
        self.kind = kind              # mono, multi, ambi, hrir
        self.ch = [np.array(c, float) for c in ch]
        self.fs = fs
        self.dirs = dirs

    def copy(self):
        return Model(self.kind, [c.copy() for c in self.ch], self.fs,
                     None if self.dirs is None else [d.copy() for d in self.dirs])


def state(x, m):
    """Everything the accessors say."""
    if m.kind == 'mono':
        return dict(signal=np.array(x.signal), fs=x.fs, len=len(x), part=np.array(x[1:4]))
    if m.kind == 'hrir':
        return dict(left=np.array(x.left), right=np.array(x.right), azi=np.array(x.azi), zen=np.array(x.zen), fs=x.fs,
                    len=len(x), num_samples=x.num_samples, num_grid_points=x.num_grid_points,
                    one=[np.array(v) for v in x[1]])
    d = dict(signals=np.array(x.get_signals()), prop=np.array(x.signals), fs=x.fs, len=len(x),
             num_channels=x.num_channels, channel_count=x.channel_count, chfs=[c.fs for c in x.channels],
             chlen=[len(c) for c in x.channels], last=np.array(x[-1].signal), chans=len(x.channels))
    if m.kind == 'ambi':
        d.update(W=np.array(x.W), X=np.array(x.X), Y=np.array(x.Y), Z=np.array(x.Z))
    return d


def expect(m):
    if m.kind == 'mono':
        return dict(signal=m.ch[0], fs=m.fs, len=len(m.ch[0]), part=m.ch[0][1:4])
    if m.kind == 'hrir':
        n = len(m.ch) // 2
        l, r = np.array(m.ch[:n]), np.array(m.ch[n:])
        return dict(left=l, right=r, azi=m.dirs[0], zen=m.dirs[1], fs=m.fs, len=l.shape[1], num_samples=l.shape[1],
                    num_grid_points=n, one=[l[1], r[1]])
    s = np.array(m.ch)
    d = dict(signals=s, prop=s, fs=m.fs, len=s.shape[1], num_channels=len(s), channel_count=len(s),
             chfs=[m.fs] * len(s), chlen=[s.shape[1]] * len(s), last=s[-1], chans=len(s))
    if m.kind == 'ambi':
        d.update(W=s[0], X=s[1], Y=s[2], Z=s[3])
    return d


class C10(Check):
    id = 'C10'
    needs = ('resampy',)
    fault_kinds = {'dsp.convolve': ['MemoryError', 'RuntimeError', 'KeyboardInterrupt'],
                   'dsp.resample': ['MemoryError', 'RuntimeError', 'KeyboardInterrupt'],
                   'fs.open': ['EMFILE', 'ENOENT', 'EACCES']}

    def scenario(self, rng):
        kinds = [rng.choice(['mono', 'multi', 'multi', 'ambi', 'ambi', 'hrir']) for _ in range(rng.randint(1, 3))]
        objs = [dict(kind=k, c=rng.choice([1, 1, 2, 3, 4, 4, 9, 25]), n=rng.choice([17, 40, 64, 90] * 6 + [700, 3000]), fs=rng.choice(RATES),
                     v=rng.randrange(10 ** 6), how=rng.choice(['list', 'array', 'file'])) for k in kinds]
        ops = [dict(op=rng.choice(['trim', 'trim', 'conv', 'conv', 'resample', 'apply', 'set', 'copy', 'poke', 'convert',
                                   'bad', 'bad', 'extra', 'extra']), o=rng.randrange(4), v=rng.randrange(10 ** 6))
               for _ in range(rng.randint(2, 9))]
        return dict(objs=objs, ops=ops, nfaults=rng.choice([0, 0, 1, 1, 2]))

    def shrink(self, scn):
        return shrink_list(scn, 'ops')

    def nontrivial(self, scn, faults, res):
        return res['info'].get('changed', 0) > 1

    def choose_faults(self, rng, hits, scn):
        f = super().choose_faults(rng, hits, scn)
        return list({(x['site'], x['nth']): x for x in f}.values())

    def build(self, spa, o, rng):
        """(object, model, may it fail by a file fault?)"""
        g = spa.sig
        k, n, fs = o['kind'], o['n'], o['fs']
        if k == 'hrir':
            c = max(2, o['c'])
            h = hrir_data(rng, c, n)
            m = Model('hrir', list(h['left']) + list(h['right']), fs, [h['azi'].copy(), h['zen'].copy()])
            return (lambda: g.HRIRs(h['left'], h['right'], h['azi'], h['zen'], fs)), m
        c = 1 if k == 'mono' else 4 if k == 'ambi' else o['c']
        x = rng.normal(size=(c, n)) * 0.2
        m = Model(k, list(x), fs)
        cls = {'mono': g.MonoSignal, 'multi': g.MultiSignal, 'ambi': g.AmbiBSignal}[k]
        if o['how'] == 'file' and not (k == 'multi' and c == 1):
            import soundfile
            p = os.path.join(simfs.scratch(), 'in%d.wav' % o['v'])
            soundfile.write(p, x.T if c > 1 else x[0], fs, subtype='DOUBLE')
            return (lambda: cls.from_file(p, **({'fs': fs} if o['v'] % 2 else {}))), m
        if k == 'mono':
            return (lambda: cls(x[0].tolist() if o['how'] == 'list' else x[0], fs)), m
        return (lambda: cls([v.tolist() if o['how'] == 'list' else v for v in x], fs=fs)), m

    def execute(self, scn, faults, strategy, out):
        with simenv(scn, faults, strategy) as sim:
            out['sim'] = sim
            sim.env['dsp'] = True
            spa = sim.load_main()
            sim.faults.enabled = False
            objs = []
            out['cover'] = cov = {}
            out['changed'] = 0
            hist = []

            def check(what, only=None):
                for i, (x, m) in enumerate(objs):
                    o = call(state, x, m)
                    if not o.ok:
                        return violation('accessor', 'after %s: accessor of %s %d: %r' % (what, m.kind, i, o))
                    d = diff(o.value, expect(m), 1e-9, 1e-12)
                    if d:
                        return violation('wrong', 'after %s: %s %d disagrees with the plain arrays: %s' % (what, m.kind, i, d))
                return None

            def text():
                return ' -> '.join(hist[-6:])
            for o in scn['objs']:
                f, m = self.build(spa, o, rng_of(o['v']))
                sim.faults.enabled = True
                n0 = len(sim.faults.fired)
                r = call(f)
                sim.faults.enabled = False
                if not r.ok:
                    if len(sim.faults.fired) > n0:
                        r = call(f)
                    if not r.ok:
                        return violation('raised', 'building a %s (%s): %r' % (m.kind, o['how'], r))
                objs.append((r.value, m))
                hist.append('new %s' % m.kind)
            v = check('construction')
            if v:
                return v
            for op in scn['ops']:
                i = op['o'] % len(objs)
                x, m = objs[i]
                rng = rng_of(op['v'])
                act = self.action(spa, op, x, m, rng, objs)
                if act is None:
                    continue
                name, f, new, valid = act
                hist.append('%s(%s %d)' % (name, m.kind, i))
                sim.faults.enabled = True
                n0 = len(sim.faults.fired)
                r = call(f)
                sim.faults.enabled = False
                fired = len(sim.faults.fired) > n0
                key = name + (' failed' if not r.ok else '')
                cov[key] = cov.get(key, 0) + 1
                if r.hang:
                    return violation('hang', '%s never returns' % text())
                if r.ok and valid is False:
                    return violation('accepted', '%s: invalid operation accepted (returned %r)' % (text(), type(r.value)))
                if not r.ok:
                    if valid and not fired:
                        return violation('raised', '%s: %r' % (text(), r))
                    if valid is None and not fired:
                        pass
                    hist[-1] += '=' + type(r.exc).__name__
                else:
                    out['changed'] += 1
                    if callable(new):
                        v = new(r.value)
                        if v:
                            return violation('wrong', '%s: %s' % (text(), v))
                v = check(text())
                if v:
                    return v
                if not r.ok and valid and fired:
                    # once the fault is over, the same operation works
                    act = self.action(spa, op, x, m, rng_of(op['v']), objs)
                    name, f, new, valid = act
                    hist.append('again ' + name)
                    r = call(f)
                    if not r.ok:
                        return violation('raised', '%s: %r' % (text(), r))
                    if callable(new):
                        v = new(r.value)
                        if v:
                            return violation('wrong', '%s: %s' % (text(), v))
                    v = check(text())
                    if v:
                        return v
            out['digest'] = digest([expect(m) for _, m in objs])
        return None

    def action(self, spa, op, x, m, rng, objs):
        """(name, the call, what to do with its value, valid: True / False / None if either is fine)"""
        g = spa.sig
        k = m.kind
        n = len(m.ch[0])
        kind = op['op']
        if kind == 'copy':
            if len(objs) >= 5:
                return None

            def done(y):
                if y is x or type(y) is not type(x):
                    return 'copy is %r' % type(y)
                objs.append((y, m.copy()))
            return 'copy', x.copy, done, True
        if kind == 'poke':
            c = int(rng.integers(len(m.ch)))
            s = int(rng.integers(n))
            val = float(rng.normal())

            def poke():
                if k == 'mono':
                    a = x.signal
                elif k == 'hrir':
                    h = len(m.ch) // 2
                    a = (x.left if c < h else x.right)[c % h]
                else:
                    a = x.channels[c].signal
                a[s] = val
                m.ch[c][s] = val
            if k == 'hrir' and not (x.left.flags.writeable and x.right.flags.writeable):
                return None
            return 'write', poke, None, True
        if k == 'hrir':
            return self.hrir_action(spa, op, x, m, rng)
        if kind == 'trim':
            if n < 12:
                return None
            a = int(rng.integers(0, n // 2))
            b = int(rng.integers(a + 5, n + 4))
            start, stop = (a + .5) / m.fs, (b + .5) / m.fs
            if rng.random() < 0.3 and b < n:
                f = lambda: x.trim(start, 0, dur=(b - a) / m.fs)
            else:
                f = lambda: x.trim(start, stop)

            def done(_):
                m.ch = [c[a:b].copy() for c in m.ch]
            return 'trim', f, done, True
        if kind == 'conv':
            taps = int(rng.integers(1, 9))
            mode = ['full', 'same', 'valid', 'full'][int(rng.integers(4))]
            if n < 12 or n > 400:
                return None
            hs = [rng.normal(size=taps) for _ in m.ch]
            kw = {} if mode == 'full' else dict(mode=mode)
            if rng.random() < .3:
                kw['method'] = 'fft'

            def done(y):
                if y is not x:
                    return 'conv does not return the signal'
                m.ch = [conv(c, h, mode) for c, h in zip(m.ch, hs)]
            arg = hs[0] if k == 'mono' else np.array(hs) if rng.random() < 0.5 else [list(h) for h in hs]
            return 'conv', (lambda: x.conv(arg, **kw)), done, True
        if kind == 'resample':
            if n < 16:
                return None
            fs = RATES[int(rng.integers(len(RATES)))]

            def done(_):
                import resampy
                if fs != m.fs:
                    m.ch = [resampy.resample(c[None], m.fs, fs, axis=-1)[0] for c in m.ch]
                    m.fs = fs
            return 'resample', (lambda: x.resample(fs)), done, True
        if kind == 'apply':
            y = rng.normal(size=n)
            bad = int(rng.integers(0, 7))
            calls = []

            def func(*a, gain=1.):
                calls.append(1)
                if len(calls) == bad:
                    raise ZeroDivisionError('user function')
                return a[-1] * (len(calls) * gain)

            def done(_):
                if len(calls) != len(m.ch):
                    return 'function called %d times' % len(calls)
                m.ch = [y * ((j + 1) * .5) for j in range(len(m.ch))]
            return 'apply', (lambda: x.apply(func, y.copy(), gain=.5)), done, not (1 <= bad <= len(m.ch))
        if kind == 'set':
            y = rng.normal(size=n)
            c = int(rng.integers(len(m.ch)))
            if k == 'ambi' and rng.random() < 0.8:
                def f():
                    setattr(x, 'WXYZ'[c], y.copy())
            elif k == 'mono':
                def f():
                    x.signal = y.copy()
            else:
                def f():
                    x.channels[c].signal = y.tolist() if op['v'] % 2 else y.copy()

            def done(_):
                m.ch[c] = y
            return 'assign', f, done, True
        if kind == 'convert':
            if k == 'mono' or len(objs) >= 5:
                return None
            if len(m.ch) == 4 and rng.random() < 0.6:
                def done(y):
                    if not isinstance(y, g.AmbiBSignal):
                        return 'sh_to_b gives %r' % type(y)
                    c = m.ch
                    objs.append((y, Model('ambi', [GAIN * c[0]] + [GAIN / np.sqrt(3) * c[j] for j in (3, 1, 2)], m.fs)))
                return 'sh_to_b', (lambda: g.AmbiBSignal.sh_to_b(x)), done, True
            a = int(rng.integers(0, n // 2))
            b = int(rng.integers(a + 5, n + 6))

            def done(y):
                t = m.copy()
                t.ch = [c[a:b].copy() for c in t.ch]
                objs.append((y, t))
            return 'trim_audio', (lambda: g.trim_audio(x, (a + .5) / m.fs, (b + .5) / m.fs)), done, True
        if kind == 'extra':
            if k == 'ambi' or len(objs) >= 5 or k == 'mono':
                def done(y):
                    return diff(np.array(y), m.ch[0][2:9]) if k == 'mono' else \
                        diff(np.array(y.signal), m.ch[len(m.ch) - 1])
                return 'getitem', (lambda: x[2:9] if k == 'mono' else x[len(m.ch) - 1]), done, True
            def done(y):
                objs.append((y, Model('multi', [c.copy() for c in m.ch], m.fs)))
            return 'rebuild', (lambda: g.MultiSignal(list(np.array(x.get_signals())), fs=x.fs)), done, True
        if kind == 'bad':
            r = int(rng.integers(6))
            if r == 0:
                return 'trim beyond the end', (lambda: x.trim((n + 2.5) / m.fs, (n + 9) / m.fs)), None, False
            if r == 1:
                return 'resample to a bad rate', (lambda: x.resample([0, -8000][op['v'] % 2])), None, False
            if r == 2:
                # the last channel's filter is unusable
                bad = [np.ones(3) for _ in m.ch]
                bad[-1] = np.ones((2, 3))
                return 'conv with a bad filter', (lambda: x.conv(bad[0] if k == 'mono' else bad)), None, False
            if r == 3:
                def f():
                    if k == 'ambi':
                        x.Y = np.ones((3, 3))
                    elif k == 'mono':
                        x.signal = np.ones((3, 3))
                    else:
                        x.channels[-1].signal = np.ones((3, 3))
                return 'assign a matrix', f, None, False
            if r == 4 and k != 'mono':
                calls = []

                def func():
                    calls.append(1)
                    return np.ones(n) if len(calls) < len(m.ch) else np.ones((2, n))
                return 'apply with a bad result', (lambda: x.apply(func)), None, False
            if r == 5 and k != 'mono':
                bad = [np.ones(3) for _ in m.ch]
                return 'conv with a bad mode', (lambda: x.conv(bad, mode='sideways')), None, False
        return None

    def hrir_action(self, spa, op, x, m, rng):
        kind = op['op']
        h = len(m.ch) // 2
        n = len(m.ch[0])
        if kind in ('trim', 'set', 'apply'):
            t = int(rng.integers(4, 60))
            l, r = rng.normal(size=(2, h, t))

            def done(_):
                m.ch = [c.copy() for c in l] + [c.copy() for c in r]
            return 'update_hrirs', (lambda: x.update_hrirs(l.copy(), r.copy())), done, True
        if kind in ('conv', 'resample', 'convert'):
            if n > 300:
                return None
            taps = rng.normal(size=int(rng.integers(1, 7)))
            mode = ['full', 'same', 'full', 'valid'][int(rng.integers(4))]
            if mode == 'valid' and n < 10:
                mode = 'same'

            def done(_):
                m.ch = [conv(c, taps, mode) for c in m.ch]
            return 'apply_ctf_eq', (lambda: x.apply_ctf_eq(taps.copy(), **({} if mode == 'full' else dict(mode=mode)))), \
                done, True
        if kind == 'extra':
            azi, zen = to_sph(sphere_points(rng, 3))
            i, margin = nearest(azi, zen, m.dirs[0], m.dirs[1])
            if margin < 1e-6:
                return None

            def done(y):
                a, b, c = y
                return diff(np.array(a), i) or diff(np.array(b).reshape(3, -1) if False else np.array(b), int(i[0])) or \
                    diff([np.array(v) for v in c], [m.ch[i[0]], m.ch[h + i[0]]])
            return 'nearest', (lambda: (x.nearest_idx(azi, zen), x.nearest_idx(azi[0], zen[0]),
                                        x.nearest_hrirs(azi[0], zen[0]))), done, True
        if kind == 'bad':
            r = int(rng.integers(4))
            l, q = rng.normal(size=(2, h, 7))
            if r == 0:
                return 'update with missing directions', (lambda: x.update_hrirs(l[:-1], q)), None, False
            if r == 1:
                return 'update with other directions', (lambda: x.update_hrirs(np.r_[l, l], np.r_[q, q])), None, False
            if r == 2:
                return 'update with a vector', (lambda: x.update_hrirs(l, q[:, 0])), None, False
            return 'equalise in a bad mode', (lambda: x.apply_ctf_eq(np.ones(3), mode='sideways')), None, False
        return None


CHECK = C10()
