"""C16: playback hands exactly the signal to the device, at its rate, and waits exactly when asked."""
from .common import *


class C16(Check):
    id = 'C16'
    fault_kinds = {'sd.play': ['busy', 'open'], 'sd.wait': ['KeyboardInterrupt'], 'line': ['MemoryError', 'KeyboardInterrupt']}

    def scenario(self, rng):
        sigs = [dict(kind=rng.choice(['mono', 'mono', 'multi', 'ambi']), n=rng.choice([1, 2, 7, 100, 4410, 30000]),
                     c=rng.choice([1, 2, 3, 4, 9, 16]), fs=rng.choice([44100, 48000, 96000, 8000, 22050, 44100.0]),
                     dt=rng.choice(['f8', 'f8', 'f4', 'i2', 'list', 'view']), v=rng.randrange(10 ** 6)) for _ in range(rng.randint(1, 3))]
        ops = []
        for _ in range(rng.randint(1, 7)):
            r = rng.random()
            s = rng.randrange(3)
            if r < .7 or not ops:
                ops.append(dict(op='play', s=s, gain=rng.choice([None, None, 1, 1.0, 0.5, -1, 2, 0, 'np', 'f4']),
                                wait=rng.choice([None, True, False, False]), pos=rng.random() < .2))
            elif r < .8:
                ops.append(dict(op='write', s=s, v=rng.randrange(10 ** 6)))
            elif r < .9:
                ops.append(dict(op='pass', t=rng.choice([0.0001, .05, 3])))
            else:
                ops.append(dict(op=rng.choice(['trim', 'copy', 'default']), s=s, v=rng.randrange(10 ** 6)))
        return dict(sigs=sigs, ops=ops, nfaults=rng.choice([0, 1, 1, 2]), lines=rng.random() < .2, latency=rng.choice([0., 0., .02, 1.]),
                    rates=rng.choice([None] * 5 + [[44100, 48000], [48000]]), chans=rng.choice([128] * 5 + [2, 8]))

    def shrink(self, scn):
        out = shrink_list(scn, 'ops') + shrink_list(scn, 'sigs')
        if scn['rates']:
            out.append(dict(scn, rates=None))
        if scn['latency']:
            out.append(dict(scn, latency=0.))
        for i, q in enumerate(scn['sigs']):
            for w in shrink_ints(q, dict(n=1, c=1)):
                out.append(dict(scn, sigs=scn['sigs'][:i] + [w] + scn['sigs'][i + 1:]))
        return out

    def choose_faults(self, rng, hits, scn):
        if scn['lines'] and hits.get('line'):
            return [dict(site='line', nth=rng.randrange(hits['line']), kind=rng.choice(self.fault_kinds['line']))]
        f = super().choose_faults(rng, {k: v for k, v in hits.items() if k != 'line'}, scn)
        for x in f:
            x['frac'] = rng.random()
        return f

    def nontrivial(self, scn, faults, res):
        return res['info'].get('plays', 0) > 0

    def make(self, spa, q):
        rng = rng_of(q['v'])
        c = {'mono': 1, 'ambi': 4}.get(q['kind'], q['c'])
        x = rng.normal(size=(c, q['n']))
        if q['dt'] == 'i2':
            x = np.round(x * 1000).astype(np.int16)
        elif q['dt'] == 'f4':
            x = x.astype(np.float32)
        if q['dt'] == 'view':
            big = np.zeros((c, 2 * q['n']))
            big[:, ::2] = x
            ch = [b[::2] for b in big]
        else:
            ch = [r.tolist() if q['dt'] == 'list' else r.copy() for r in x]
        if q['kind'] == 'mono':
            return spa.sig.MonoSignal(ch[0], q['fs']), [x[0]], q['fs']
        cls = spa.sig.AmbiBSignal if q['kind'] == 'ambi' else spa.sig.MultiSignal
        return cls(ch, fs=q['fs']), list(x), q['fs']

    @staticmethod
    def state(s):
        return [np.array(c.signal) for c in s.channels] if hasattr(s, 'channels') else [np.array(s.signal)]

    def execute(self, scn, faults, strategy, out):
        with simenv(scn, faults, strategy, budget=3000000, trace='line') as sim:
            out['sim'] = sim
            if scn['lines']:
                line_fault(sim)
            else:
                sim.trace = None
            sim.faults.enabled = False
            spa = sim.load_main()
            from simkit import env
            dev = env.device(sim)
            dev.latency = scn['latency']
            sim.env['device_rates'] = scn['rates']
            sim.env['device_channels'] = scn['chans']
            out['cover'] = cov = {}
            out['plays'] = 0
            sigs = [list(self.make(spa, q)) for q in scn['sigs']]
            hist = []
            sent = []
            ops = scn['ops'] + [dict(op='play', s=i, gain=None, wait=True, pos=False, calm=True) for i in range(len(sigs))]
            for o in ops:
                if o['op'] == 'pass':
                    sim.sched.sleep(o['t'])
                    continue
                if o['op'] == 'default':
                    env.SD.default.samplerate = 32000
                    continue
                s, want, fs = q = sigs[o['s'] % len(sigs)]
                if o['op'] == 'copy':
                    q[0] = s.copy()
                    continue
                if o['op'] == 'write':                    # the caller goes on working with the signal
                    rng = rng_of(o['v'])
                    for i, c in enumerate(s.channels if hasattr(s, 'channels') else [s]):
                        new = rng.normal(size=len(want[i]))
                        if want[i].dtype.kind != 'f' or not c.signal.flags.writeable:
                            c.signal = new
                        else:
                            c.signal[:] = new
                        want[i] = np.array(c.signal)
                    hist.append('write')
                    continue
                if o['op'] == 'trim':
                    n = len(want[0])
                    if n > 2:
                        r = call(s.trim, 0, (n // 2) / fs)
                        if not r.ok:
                            return violation('trim', '%r' % r)
                        want[:] = self.state(s)
                        hist.append('trim')
                    continue
                g = {'np': np.float64(.25), 'f4': np.float32(.5)}.get(o['gain'], o['gain'])
                w = o['wait']
                a, k = (), {}
                if o['pos'] and g is not None and w is not None:
                    a = (g, w)
                else:
                    k = {n: v for n, v in (('gain', g), ('wait', w)) if v is not None}
                calm = o.get('calm')
                if calm:
                    sim.env['device_rates'] = None
                    sim.env['device_channels'] = 128
                n0, p0, t0 = len(sim.faults.fired), len(dev.plays), sim.sched.now
                sim.faults.enabled = not calm
                r = traced(sim, s.play, *a, **k) if scn['lines'] and not calm else call(s.play, *a, **k)
                sim.faults.enabled = False
                hit = sim.faults.fired[n0:]
                kind = scn['sigs'][o['s'] % len(sigs)]['kind']
                hist.append('%s.play(%s)%s' % (kind, ', '.join(['%r' % (x,) for x in a] + ['%s=%r' % x for x in k.items()]),
                                               '' if r.ok else '=' + (type(r.exc).__name__ if r.exc else 'hang')))
                text = ' '.join(hist[-6:])
                if r.hang:
                    return violation('hang', text)
                now = self.state(s)
                if len(now) != len(want) or any(x.shape != y.shape or not np.array_equal(x, y) for x, y in zip(now, want)) or s.fs != fs:
                    return violation('changed', '%s: the signal changed' % text)
                new = dev.plays[p0:]
                c = len(want)
                refuse = not calm and ((scn['rates'] and fs not in scn['rates']) or c > scn['chans'])
                fault = [f['site'] for f in hit]
                if refuse or 'sd.play' in fault:
                    cov['device error'] = cov.get('device error', 0) + 1
                    if r.ok or new:
                        return violation('swallowed', '%s: the device failed but the call %s' % (
                            text, 'returned' if r.ok else 'played something'))
                    continue
                if 'sd.wait' in fault:
                    cov['interrupted'] = cov.get('interrupted', 0) + 1
                    if r.ok:
                        return violation('swallowed', '%s: the interrupt while waiting was lost' % text)
                elif 'line' in fault:
                    if len(new) > 1:
                        return violation('twice', '%s: played %d times' % (text, len(new)))
                    cov['failed inside'] = cov.get('failed inside', 0) + 1
                    if not new:
                        continue
                elif not r.ok:
                    return violation('raised', '%s: %r' % (text, r))
                if len(new) != 1:
                    return violation('once', '%s: delivered %d times' % (text, len(new)))
                rec = new[0]
                gain = 1 if g is None else g
                exp = np.stack([gain * x for x in want], 1)
                sent.append((rec, exp.astype(float), text))
                d = self.frames(rec, exp)
                if d:
                    return violation('frames', '%s: %s' % (text, d))
                if rec['fs'] != fs:
                    return violation('rate', '%s: played at %r instead of %r' % (text, rec['fs'], fs))
                if rec['loop'] or (rec['mapping'] is not None and list(np.atleast_1d(rec['mapping'])) != list(range(1, c + 1))):
                    return violation('mapping', '%s: mapping %r, loop %r' % (text, rec['mapping'], rec['loop']))
                if r.ok:
                    if w is False:
                        cov['not waited'] = cov.get('not waited', 0) + 1
                        if sim.sched.now - t0 > 1e-9:
                            return violation('waited', '%s: took %.3f s' % (text, sim.sched.now - t0))
                    else:
                        cov['waited'] = cov.get('waited', 0) + 1
                        if sim.sched.now < rec['end'] - 1e-9 or rec['stopped'] is not None:
                            return violation('early', '%s: returned %.4f s before the end' % (text, rec['end'] - sim.sched.now))
                        if sim.sched.now > max(rec['end'], t0) + .5:
                            return violation('late', '%s: returned %.3f s after the end' % (text, sim.sched.now - rec['end']))
                    out['plays'] += 1
            for rec, exp, text in sent:
                # the device reads its buffer while it plays
                d = self.frames(dict(rec, snap=rec['buf']), exp)
                if d:
                    return violation('frames', '%s: the caller\'s later changes reached the device: %s' % (text, d))
            out['digest'] = digest([hist, [x[0]['snap'] for x in sent]])
        return None

    @staticmethod
    def frames(rec, exp):
        got = np.asarray(rec['snap'])
        if got.ndim == 1:
            got = got[:, None]
        if got.shape != exp.shape:
            return '%s frames x channels instead of %s' % (got.shape, exp.shape)
        return diff(got.astype(float), exp.astype(float), 1e-6 if exp.dtype == np.float32 else 1e-12, 0)


CHECK = C16()
