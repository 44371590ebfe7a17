"""C19: pulsed noise has its documented structure for every random stream."""
import random
from .common import *

KINDS = ['seed'] * 5 + ['second', 'advanced', 'words', 'ones', 'alternate', 'tiny', 'huge', 'spike', 'pcg']
_wrapped = []


def install():
    """Scripted streams: the draws the package makes can be replaced by an adversarial sequence."""
    if _wrapped:
        return
    _wrapped.append(True)
    from simkit import env as E

    def wrap(name, shape):
        real = getattr(np.random, name)

        def f(*a, **k):
            s = S.here()
            if s is None or not E._pkg(2):
                return real(*a, **k)
            s.count('random.' + name)
            s.faults.hit('random')
            x = real(*a, **k)
            fun = s.env.get('stream')
            return x if fun is None else fun(x)
        f.__name__ = name
        setattr(np.random, name, f)
    for n in ('randn', 'standard_normal', 'normal', 'rand', 'random', 'uniform'):
        wrap(n, None)


STREAMS = {'ones': lambda x: np.ones_like(x), 'alternate': lambda x: np.resize([1., -1.], np.shape(x)), 'tiny': lambda x: x * 1e-150,
           'huge': lambda x: x * 1e150, 'spike': lambda x: np.where(np.arange(np.size(x)) == np.size(x) // 2, 1., 1e-9)}


class C19(Check):
    id = 'C19'
    fault_kinds = {'line': ['MemoryError', 'KeyboardInterrupt', 'RuntimeError'], 'random': ['MemoryError', 'KeyboardInterrupt']}

    def setup(self):
        install()

    def duration(self, rng, fs, hi):
        n = rng.randint(1, hi) if rng.random() < .9 else rng.randint(hi, 6 * hi)
        r = rng.random()
        return n / fs if r < .6 else (n + rng.random()) / fs if r < .9 else max(round(n / fs, 3), 1 / fs)

    def scenario(self, rng):
        calls = []
        for _ in range(rng.randint(1, 4)):
            fs = rng.choice([100, 1000, 8000, 44100, 48000, 96000, 12345, 48000., 22050.5])
            c = dict(fs=fs, noise=self.duration(rng, fs, 120), pause=rng.choice([0, self.duration(rng, fs, 60)]), reps=rng.choice([None, 1, 1, 2, 3, 7]),
                     pink=rng.choice([None, True, False, False]), norm=rng.choice([None, True, False]), pos=rng.random() < .3)
            r = rng.random()
            c['fade'] = (0 if r < .25 else rng.random() * c['noise'] * (.5 if rng.random() < .7 else 1.))
            if rng.random() < .07:
                c['fade'] = None          # the default of 20 ms
                c['noise'] = rng.choice([.05, .1, .021])
                c['fs'] = rng.choice([1000, 8000])
            if rng.random() < .03:            # of the length listening tests use
                c.update(fs=rng.choice([44100, 48000]), noise=rng.choice([.1, .2371]), pause=rng.choice([.05, .25, .3]), fade=rng.choice([.02, None]))
            calls.append(c)
        return dict(calls=calls, kind=rng.choice(KINDS), seed=rng.randrange(2 ** 32), clock=rng.choice([None, 1e9]), threads=1 if
                    rng.random() < .7 else 2, trace='line', nfaults=1 if rng.random() < .3 else 0, poison=rng.random() < .5)

    def shrink(self, scn):
        out = shrink_list(scn, 'calls')
        for k, v in (('kind', 'seed'), ('seed', 1), ('clock', None), ('threads', 1), ('poison', False)):
            if scn[k] != v:
                out.append(dict(scn, **{k: v}))
        for i, c in enumerate(scn['calls']):
            for k, v in (('pause', 0), ('reps', 1), ('fade', 0), ('fs', 1000)):
                if c[k] != v:
                    out.append(dict(scn, calls=scn['calls'][:i] + [dict(c, **{k: v})] + scn['calls'][i + 1:]))
        return out

    def nontrivial(self, scn, faults, res):
        return res['info'].get('returned', 0) > 0

    def execute(self, scn, faults, strategy, out):
        with simenv(scn, faults, strategy, budget=2000000, trace='line') as sim:
            out['sim'] = sim
            sim.trace = None
            sim.faults.enabled = False
            spa = sim.load_main()
            self.fun = spa.process.pulsed_noise
            if scn['poison']:
                sim.env['poison'] = float('nan')
            if scn['clock']:
                sim.env['clock_offset'] = scn['clock']
            bits = np.random.get_bit_generator() if hasattr(np.random, 'get_bit_generator') else None
            try:
                return self.run(sim, spa, scn, out)
            finally:
                sim.env['stream'] = None
                if bits is not None:
                    np.random.set_bit_generator(bits)

    def run(self, sim, spa, scn, out):
        self.state(sim, scn, 0)
        line_fault(sim)
        out['returned'] = 0
        out['cover'] = {'stream ' + scn['kind']: 1}
        hist = []
        seen = []
        dig = []
        for i, c in enumerate(scn['calls']):
            text = 'pulsed_noise(%s) on stream %s %d after %s' % (', '.join('%s=%s' % (k, c[k]) for k in sorted(c)), scn['kind'], scn['seed'],
                                                               hist or 'nothing')
            if scn['threads'] == 2:
                v = self.together(sim, scn, c, text, out)
                if v:
                    return v
                hist.append('two threads')
                continue
            st = self.save()
            n0 = len(sim.faults.fired)
            sim.faults.enabled = True
            o = self.one(sim, c, bool(scn['nfaults']))
            sim.faults.enabled = False
            hit = len(sim.faults.fired) > n0
            if o.hang:
                return violation('hang', text) if not hit else None
            if not o.ok:
                hist.append(type(o.exc).__name__)
                if not hit:
                    v = self.refused(c, o, text)
                    if v:
                        return v
                    continue
                self.restore(st)
                o = self.one(sim, c, False)         # the failure leaves nothing behind
                if not o.ok:
                    v = self.refused(c, o, text + ' after an injected failure')
                    if v:
                        return v
                    continue
            else:
                hist.append('ok')
            after = self.save()
            v = self.check(o.value, c, text, scn)
            if v:
                return v
            out['returned'] += 1
            s = np.array(o.value, float)
            dig.append(s)
            # the same state gives the same signal
            self.restore(st)
            o2 = self.one(sim, c, False)
            if not o2.ok or not np.array_equal(s, np.asarray(o2.value), equal_nan=True):
                return violation('repeat', '%s: the same state of the generator gives %s' % (text, 'another signal' if o2.ok else repr(o2)))
            if o2.value is o.value or np.shares_memory(np.asarray(o.value), np.asarray(o2.value)):
                return violation('shared', '%s: two calls share their result' % text)
            if not np.array_equal(s, np.asarray(o.value), equal_nan=True):
                return violation('shared', '%s: a later call changes the signal returned earlier' % text)
            # relations between the variants on one state
            v = self.relations(sim, c, st, s, text)
            if v:
                return v
            self.restore(after)
            # other noise the next time
            if scn['kind'] not in ('ones', 'alternate', 'spike'):
                o3 = self.one(sim, c, False)
                if not o3.ok:
                    return violation('refused', '%s: the next call: %r' % (text, o3))
                if self.distinct(s) and np.array_equal(s, np.asarray(o3.value)):
                    return violation('stuck', '%s: the next call returns the same noise' % text)
                self.state(sim, scn, i + 1)
                o4 = self.one(sim, c, False)
                if o4.ok and self.distinct(s) and np.array_equal(s, np.asarray(o4.value)):
                    return violation('stuck', '%s: another state of the generator gives the same noise' % text)
            else:
                self.state(sim, scn, i + 1)
            seen.append((o.value, s))
        for o, s in seen:
            if not np.array_equal(np.asarray(o), s, equal_nan=True):
                return violation('shared', 'a later call changes the signal returned earlier: %s' % hist)
        out['digest'] = digest([hist, dig])
        return None

    # ---------------------------------------------------------- generator
    def state(self, sim, scn, i):
        kind = scn['kind']
        seed = (scn['seed'] + 7919 * i) % 2 ** 32
        sim.env['stream'] = STREAMS.get(kind)
        if kind == 'pcg' and hasattr(np.random, 'set_bit_generator'):
            np.random.set_bit_generator(np.random.PCG64(seed))
            return
        np.random.seed(seed)
        if kind == 'second':
            np.random.standard_normal(1)
        elif kind == 'advanced':
            np.random.standard_normal(1 + seed % 2001)
        elif kind == 'words':
            r = random.Random(seed)
            np.random.set_state(('MT19937', np.array([r.choice([0, 1, 2 ** 32 - 1, r.getrandbits(32)]) for _ in range(624)], np.uint32),
                                 r.randrange(625), r.randrange(2), r.gauss(0, 1)))

    def save(self):
        return np.random.get_state(legacy=False)

    def restore(self, st):
        np.random.set_state(st)

    # ---------------------------------------------------------- calls
    def args(self, c, **over):
        c = dict(c, **over)
        a = [c['noise'], c['pause'], c['fs']]
        k = {}
        for name, key in (('reps', 'reps'), ('t_fade', 'fade'), ('pink_noise', 'pink'), ('normalize', 'norm')):
            if c[key] is not None:
                k[name] = c[key]
        if c['pos']:
            return [], dict(k, t_noise=a[0], t_pause=a[1], fs=a[2])
        return a, k

    def one(self, sim, c, trace, **over):
        a, k = self.args(c, **over)
        return traced(sim, self.fun, *a, **k) if trace else call(self.fun, *a, **k)

    def counts(self, t, fs):
        """Numbers of samples a duration can mean."""
        x = t * fs
        f = int(np.floor(x))
        return [f] if x == f else [f, f + 1] if x - f > 1e-6 and f + 1 - x > 1e-6 else [int(round(x))] + [f if round(x) != f else f + 1]

    def refused(self, c, o, text):
        n, fade = self.counts(c['noise'], c['fs']), self.counts(self.fade(c), c['fs'])
        if isinstance(o.exc, (ValueError, ZeroDivisionError)) and (max(fade) > min(n) or min(n) < 1):
            return None
        return violation('refused', '%s: %r' % (text, o))

    def fade(self, c):
        return .02 if c['fade'] is None else c['fade']

    def distinct(self, s):
        return np.isfinite(s).all() and np.count_nonzero(s) > 3

    def split(self, s, c):
        """(bursts, pauses) for the first consistent reading of the durations."""
        reps = 10 if c['reps'] is None else c['reps']
        for n in self.counts(c['noise'], c['fs']):
            for p in self.counts(c['pause'], c['fs']):
                if len(s) == reps * (n + p):
                    y = s.reshape(reps, n + p)
                    if not y[:, n:].any():
                        return y[:, :n], y[:, n:]
        return None

    def check(self, value, c, text, scn):
        s = np.asarray(value)
        if s.ndim != 1 or s.dtype.kind != 'f':
            return violation('structure', '%s: %s array of shape %s' % (text, s.dtype, s.shape))
        reps = 10 if c['reps'] is None else c['reps']
        ns, ps = self.counts(c['noise'], c['fs']), self.counts(c['pause'], c['fs'])
        if not any(len(s) == reps * (n + p) for n in ns for p in ps):
            return violation('length', '%s: %d samples instead of %d bursts of %s and pauses of %s' % (text, len(s), reps, ns, ps))
        if c['norm'] is not False and len(s) and np.isnan(s).all() and min(ns) - max(self.masked(c)) < 2:
            return None                   # nothing but silence to normalise
        y = self.split(s, c)
        if y is None:
            return violation('pause', '%s: the pauses are not silent' % text)
        norm = c['norm'] is not False
        if not np.isfinite(s).all():
            return violation('finite', '%s: %d values are not finite' % (text, np.sum(~np.isfinite(s))))
        m = self.masked(c)
        for b in y[0]:
            if scn is not None and scn['kind'] not in STREAMS and len(b) - m[0] - m[1] >= 4 and not b.any():
                return violation('burst', '%s: a burst is silent' % text)
        if scn is not None and scn['kind'] not in STREAMS and len(y[0]) > 1 and self.distinct(y[0][0]):
            for i in range(len(y[0])):
                for j in range(i):
                    if np.array_equal(y[0][i], y[0][j]):
                        return violation('burst', '%s: bursts %d and %d are the same noise' % (text, j, i))
        if norm and s.any() and not abs(np.max(np.abs(s)) - 1) < 1e-12:
            return violation('level', '%s: maximum %r' % (text, np.max(np.abs(s))))
        return None

    def masked(self, c):
        m = max(self.counts(self.fade(c), c['fs']))
        return m, m

    def relations(self, sim, c, st, s, text):
        def variant(**over):
            self.restore(st)
            o = self.one(sim, c, False, **over)
            return np.asarray(o.value, float) if o.ok else None
        raw = variant(norm=False)
        if raw is None:
            return violation('refused', '%s without normalisation' % text)
        if c['norm'] is not False and raw.any():
            d = diff(s, raw / np.max(np.abs(raw)), 1e-9, 1e-300)
            if d:
                return violation('level', '%s: not the signal without normalisation divided by its maximum: %s' % (text, d))
        flat = variant(norm=False, fade=0)
        if flat is None:
            return violation('refused', '%s without fades' % text)
        a, b = self.split(raw, c), self.split(flat, c)
        if a is None or b is None:
            return violation('structure', '%s: other durations without normalisation or fades' % text)
        n = b[0].shape[1]
        d = None
        for m in self.counts(self.fade(c), c['fs']):
            mask = np.ones(n)
            if 0 < m <= n:
                mask[:m] *= np.sin(np.linspace(0, np.pi / 2, m)) ** 2
                mask[n - m:] *= np.cos(np.linspace(0, np.pi / 2, m)) ** 2
            d = diff(a[0], b[0] * mask, 1e-9, 0)
            if not d:
                break
        if d:
            return violation('fade', '%s: not the noise with fades over %s samples: %s' % (text, m, d))
        white = variant(norm=False, fade=0, pink=False)
        if white is None:
            return violation('refused', '%s as white noise' % text)
        w = self.split(white, c)
        if w is None:
            return violation('structure', '%s: other durations for white noise' % text)
        if c['pink'] is False:
            d = diff(b[0], w[0], 1e-9, 0)
        else:
            W = np.fft.rfft(w[0], axis=1)
            d = diff(b[0], np.fft.irfft(W / np.sqrt(np.arange(W.shape[1]) + 1), n=n, axis=1), 1e-9, 0)
        if d:
            return violation('colour', '%s: not the noise with a 1/f power spectrum: %s' % (text, d))
        if sim.env.get('stream') is None and np.size(w[0]) > 300:
            x = w[0].ravel()
            if not .5 < np.std(x) < 1.5 or abs(np.mean(x)) > .5 or np.max(np.abs(x)) > 9 or np.max(np.abs(np.corrcoef(x[1:], x[:-1])[0, 1])) > .6:
                return violation('colour', '%s: white noise of mean %g and deviation %g' % (text, np.mean(x), np.std(x)))
        return None

    def together(self, sim, scn, c, text, out):
        """Two threads draw from the generator at the same time."""
        box = [None, None]

        def body(i):
            def run():
                a, k = self.args(c)
                box[i] = call(self.fun, *a, **k)
            return run
        sim.trace = 'line'
        sim.main.nopreempt += 1
        ts = [sim.task('thread%d' % i, body(i)) for i in range(2)]
        sim.main.nopreempt -= 1
        sim.join(ts)
        sim.trace = None
        vals = []
        for o in box:
            if o is None or o.hang:
                return violation('hang', '%s in two threads' % text)
            if not o.ok:
                v = self.refused(c, o, text + ' in two threads')
                if v:
                    return v
                continue
            v = self.check(o.value, c, text + ' in two threads', scn)
            if v:
                return v
            out['returned'] += 1
            vals.append(np.asarray(o.value))
        if len(vals) == 2 and self.distinct(vals[0]) and scn['kind'] not in STREAMS and np.array_equal(*vals):
            return violation('stuck', '%s: two threads got the same noise' % text)
        return None


CHECK = C19()
