"""C08: concurrent callers, also on the same objects, get the results they would get alone."""
import random
from .common import *
from simkit.sched import RandomStrategy, Strategy
from . import api

NOT = {'plot', 'random', 'io', 'h5', 'long'}
OPS = [k for k in api.CHEAP if not api.OPS[k][1] & NOT] + ['load_hrirs']
HEAVY = [k for k in api.ALL if not api.OPS[k][1] & NOT and k not in OPS]
# calls that work on one shared setup, HRIR set or signal, where one caller can get in another's way
SHARED = ['vbap', 'vbap', 'vbap', 'vbip', 'vbip', 'vbap_outside', 'vbip_outside', 'allrap', 'allrap2', 'allrad', 'allrad2',
          'sad', 'mad', 'epad', 'nearest_loudspeaker', 'get_characteristic_order', 'characteristic_ambisonic_order',
          'hull_checks', 'is_simplex_valid', 'binauralize', 'loudspeaker_signals', 'find_imaginary_loudspeaker',
          'apply_blacklist', 'vbap_vs', 'vbap_vs', 'vbip_vs']
SIGNALS = ['copies', 'get_signals', 'nearest_idx', 'nearest_hrirs', 'trim_audio', 'b_to_stereo', 'sig_sh_to_b',
           'binauralize', 'sh2bin', 'render_stereo_sdm', 'render_bsdm', 'pseudo_intensity', 'ilds_from_hrirs',
           'hrirs_ctf_weights', 'energy_decay', 'lagrange_delay', 'multi_conv', 'mono_conv']
GLOBALS = ['load_hrirs', 'load_t_design', 'load_n_design', 'load_lebedev', 'load_Fliege_Maier_nodes', 'gauss',
           'equal_angle', 'sh_matrix', 'sht', 'mode_strength', 'max_rE_weights', 'sh_rotation_matrix', 'rotate_sh',
           'design_sph_filterbank', 'frac_octave_filterbank', 'resample_hrirs', 'pseudo_intensity', 'render_bsdm']


def vs_op(name):
    def f(W):
        h = W.hull()
        s = np.array(h.simplices)
        keep = W.obj(('vs', W.pseed % 5), lambda r: s[np.r_[0, 1 + np.flatnonzero(r.random(len(s) - 1) < 0.6)]])
        return getattr(W.spa.decoder, name), (W.obj('vssrc', lambda r: sphere_points(r, 8)), h), dict(valid_simplices=keep)
    return f


EXTRA = {'vbap_vs': (vs_op('vbap'), {'cheap', 'jobs'}), 'vbip_vs': (vs_op('vbip'), {'cheap', 'jobs'})}


def entry(op):
    return EXTRA.get(op) or api.OPS[op]


class Threads(RandomStrategy):
    """Few preemptions at depths spread over several orders of magnitude, or the general mix."""

    def __init__(self, seed):
        r = random.Random(seed)
        super().__init__(r.random(), mode=r.choice(['pct', 'pct', 'geo', None]))
        self.mean = r.choice([2, 6, 20, 80, 300])
        if self.mode == 'pct':
            self.horizon = r.choice([30, 100, 300, 1000, 4000])
            self.changes = sorted(r.randrange(self.horizon) for _ in range(r.randint(1, 6)))
        self._arm(0)


class C08(Check):
    id = 'C08'
    needs = ('resampy',)
    fault_kinds = {'line': ['MemoryError', 'RuntimeError', 'KeyboardInterrupt']}

    def strategy(self, seed, scn):
        return Threads(seed)

    def scenario(self, rng):
        fam = rng.choice([SHARED, SHARED, SIGNALS, GLOBALS, OPS, OPS])
        one = rng.choice(fam) if rng.random() < 0.5 else None
        threads = []
        for _ in range(rng.choice([2, 2, 3])):
            t = []
            for _ in range(rng.choice([1, 1, 2])):
                op = one or rng.choice(fam)
                if rng.random() < 0.02:
                    op = rng.choice(HEAVY)
                t.append(dict(op=op, params=rng.randrange(1000)))
            threads.append(t)
        if one and rng.random() < 0.5:
            for t in threads:
                for c in t:
                    c['params'] = threads[0][0]['params']
        nf = 1 if rng.random() < 0.2 else 0
        return dict(threads=threads, seed=rng.randrange(200), layout=rng.choice(['c', 'c', 'c', 'f', 'stride']),
                    trace='line' if nf else rng.choice(['line', 'line', 'opcode']), jobs=2 if rng.random() < 0.25 else 1,
                    method=rng.choice(METHODS), own=rng.random() < 0.2, nfaults=nf)

    def shrink(self, scn):
        out = []
        n = len(scn['threads'])
        if n > 2:
            out += [dict(scn, threads=scn['threads'][:i] + scn['threads'][i + 1:]) for i in range(n)]
        for i, t in enumerate(scn['threads']):
            if len(t) > 1:
                for j in range(len(t)):
                    out.append(dict(scn, threads=scn['threads'][:i] + [t[:j] + t[j + 1:]] + scn['threads'][i + 1:]))
        if scn['jobs'] > 1:
            out.append(dict(scn, jobs=1))
        if scn['layout'] != 'c':
            out.append(dict(scn, layout='c'))
        return out

    def nontrivial(self, scn, faults, res):
        return res['info'].get('overlap', False)

    def execute(self, scn, faults, strategy, out):
        with simenv(scn, faults, strategy, budget=6000000, trace=scn['trace']) as sim:
            out['sim'] = sim
            sim.faults.enabled = False
            spa = sim.load_main()
            tagged = [entry(c['op'])[1] for t in scn['threads'] for c in t]
            if any('files' in t for t in tagged):
                api.prepare_files(api.World(spa, scn['seed']))
            cache = {}

            def world(s, c, shared):
                W = api.World(s, scn['seed'], scn['layout'], shared=shared, params=c['params'])
                if shared:
                    W.cache = cache
                f, tags = entry(c['op'])
                if 'jobs' in tags and scn['jobs'] > 1:
                    W.nsrc = 9
                fn, a, k = f(W)
                if 'jobs' in tags:
                    k = dict(k, jobs_count=scn['jobs'])
                return fn, a, k
            plan = [[world(spa, c, not scn['own']) for c in t] for t in scn['threads']]
            args = lambda: [[api.view([list(a), k], spa) for _, a, k in t] for t in plan]
            before = args()
            got = [[None] * len(t) for t in plan]

            live = [0, 0]
            inside = [False] * len(plan)

            def body(i):
                def run():
                    live[0] += 1
                    live[1] = max(live)
                    try:
                        for j, (fn, a, k) in enumerate(plan[i]):
                            inside[i] = True
                            try:
                                o = call(fn, *a, **k)
                            finally:
                                inside[i] = False
                            got[i][j] = (o, api.view(o.value, spa) if o.ok else None)
                    finally:
                        live[0] -= 1
                return run
            box = []
            sim.main.nopreempt += 1
            for i in range(len(plan)):
                box.append(sim.task('thread%d' % i, body(i)))
            sim.main.nopreempt -= 1
            sim.line_plan = lambda task, frame: task is box[0] and inside[0]
            sim.faults.enabled = True
            try:
                sim.join(box)
            except SimHang:
                if not sim.faults.fired:
                    return violation('hang', 'concurrent calls %s never return' % self.text(scn))
                return None
            sim.faults.enabled = False
            sim.trace = None
            hit = bool(sim.faults.fired)
            out['overlap'] = live[1] > 1
            out['cover'] = {'op ' + c['op']: 1 for t in scn['threads'] for c in t}
            out['cover'].update({'threads %d' % len(plan): 1, 'by ' + scn['trace']: 1,
                                 'pool in threads' if len(sim.procs) > 1 else 'threads only': 1,
                                 'one caller fails' if hit else 'no failure': 1})
            ref = {}
            kept = []
            for i, t in enumerate(scn['threads']):
                for j, c in enumerate(t):
                    key = (c['op'], c['params'])
                    if key not in ref:
                        def alone(s, c=c):
                            fn, a, k = world(s, c, False)
                            return api.view(fn(*a, **k), s)
                        ref[key] = fresh(sim, alone)
                    want = ref[key]
                    if want.hang:
                        raise HarnessError('reference hangs')
                    g = got[i][j]
                    if g is None:
                        if box[i].exc is not None:
                            raise HarnessError('%r' % box[i].exc)
                        return violation('lost', '%s in thread %d has no outcome' % (c['op'], i))
                    o, val = g
                    if hit and i == 0:
                        if not o.ok or j == 0:
                            pass
                    else:
                        if o.hang:
                            return violation('hang', '%s in thread %d never returns' % (c['op'], i))
                        v = self.compare(o, val, want)
                        if v:
                            return violation(v[0], '%s in thread %d of %s: %s' % (c['op'], i, self.text(scn), v[1]))
                    if o.ok:
                        kept.append((i, j, o.value, val, c['op']))
            for i, j, value, val, op in kept:
                d = api.close(api.view(value, spa), val, 1e-12, 'result')
                if d:
                    return violation('later', 'result of %s in thread %d changed after it was returned (%s): %s'
                                     % (op, i, self.text(scn), d))
            d = api.same(before, args(), 'arguments')
            if d:
                return violation('arguments', '%s changed what they were given: %s' % (self.text(scn), d))
            # the same calls again, one after the other: nothing may be left behind
            for i, t in enumerate(scn['threads']):
                for j, c in enumerate(t):
                    fn, a, k = plan[i][j]
                    o = call(fn, *a, **k)
                    v = self.compare(o, api.view(o.value, spa) if o.ok else None, ref[(c['op'], c['params'])])
                    if v:
                        return violation('after', '%s after the threads of %s finished%s: %s' % (
                            c['op'], self.text(scn), ', one of them with an injected failure' if hit else '', v[1]))
            out['digest'] = digest([[repr(x[0]) for x in t] for t in got])
        return None

    def compare(self, o, val, want):
        if o.ok != want.ok or (not o.ok and type(o.exc).__name__ != type(want.exc).__name__):
            return 'outcome', '%r, alone %r' % (o, want)
        if not o.ok:
            return None
        d = api.close(val, want.value, 1e-9, 'result')
        return ('differs', d) if d else None

    def text(self, scn):
        return ' | '.join(', '.join(c['op'] for c in t) for t in scn['threads'])


CHECK = C08()
