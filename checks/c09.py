"""C09: calls leave the caller's data alone, also when they fail at any line; repeated calls give the same result."""
from .common import *
from . import api

# constructors and coercions that keep or return the array they are given (documented as coercion; observed, not claimed)
VIEWS = {'asarray_1d', 'MonoSignal', 'MultiSignal', 'AmbiBSignal', 'HRIRs', 'apply_ctf_eq', 'set_wxyz', 'set_signal',
         'nearest_hrirs', 'LoudspeakerSetup', 'get_signals', 'own_trim', 'own_apply', 'own_resample', 'own_ctf_eq', 'indexing',
         'setup_attributes'}

# LAPACK's gelsd does not return on infinite input
NONFINITE = {'sht_lstsq', 'sofa_to_sh'}

# libsndfile takes a failing read for the end of the file, and the signal comes out short
LIBSNDFILE = {'load_audio', 'from_file'}


class C09(Check):
    id = 'C09'
    needs = ('resampy',)
    fault_kinds = {'line': ['MemoryError', 'KeyboardInterrupt', 'RuntimeError', 'FloatingPointError'],
                   'fs.open': ['EMFILE', 'ENOENT'], 'fs.open.w': ['ENOSPC', 'EACCES'], 'fs.write': ['EIO', 'ENOSPC'],
                   'fs.read': ['EIO'], 'task': ['RuntimeError'], 'proc.start': ['EAGAIN'], 'shm.alloc': ['ENOMEM']}

    def scenario(self, rng):
        op = rng.choice(api.CHEAP) if rng.random() < 0.72 else rng.choice(api.ALL)
        if 'slow' in api.OPS[op][1] and rng.random() < 0.5 and not op.startswith('plot'):
            op = rng.choice(api.CHEAP)
        special = rng.choice([None] * 5 + ['nan', 'inf', 'zero', 'nzero'])
        if op in NONFINITE and special in ('nan', 'inf'):
            special = None
        return dict(op=op, layout=rng.choice(api.LAYOUTS), special=special, style=rng.choice(api.STYLES),
                    seed=rng.randrange(400), params=rng.randrange(10 ** 6), jobs=2 if rng.random() < 0.3 else 1,
                    cpu=rng.randint(1, 4), method=rng.choice(METHODS), nfaults=1 if rng.random() < 0.45 else 0)

    def choose_faults(self, rng, hits, scn):
        kinds = self.fault_kinds
        sites = [s for s in sorted(hits) if s in kinds and hits[s]]
        if scn['op'] in LIBSNDFILE and 'fs.read' in sites:
            sites.remove('fs.read')
        if not sites:
            return []
        s = 'line' if 'line' in sites and rng.random() < 0.8 else rng.choice(sites)
        # spread over the call: the last lines are as interesting as the thousandth iteration of a loop
        n = hits[s]
        i = rng.choice([rng.randrange(n), rng.randrange(n), n - 1 - rng.randrange(min(n, 12))])
        return [dict(site=s, nth=i, kind=rng.choice(kinds[s]))]

    def shrink(self, scn):
        out = []
        if scn['layout'] != 'c':
            out.append(dict(scn, layout='c'))
        if scn['special']:
            out.append(dict(scn, special=None))
        if scn['style']:
            out.append(dict(scn, style=None))
        if scn['jobs'] != 1:
            out.append(dict(scn, jobs=1))
        return out

    def nontrivial(self, scn, faults, res):
        return res['info'].get('did', False)

    def execute(self, scn, faults, strategy, out):
        with simenv(scn, faults, strategy, budget=6000000, trace='line') as sim:
            out['sim'] = sim
            sim.trace = None
            sim.faults.enabled = False
            line_fault(sim)
            spa = sim.load_main()
            f, tags = api.OPS[scn['op']]
            plots = 'plot' in tags
            try:
                return self.run(sim, spa, scn, f, tags, out)
            finally:
                if plots:
                    import matplotlib.pyplot as plt
                    plt.close('all')

    def run(self, sim, spa, scn, f, tags, out):
        def world(s):
            W = api.World(s, scn['seed'], scn['layout'], special=scn['special'], params=scn['params'], style=scn['style'])
            if 'jobs' in tags and scn['jobs'] > 1:
                W.nsrc = 11
            fn, a, k = f(W)
            if 'jobs' in tags and scn['jobs'] > 1:
                k = dict(k, jobs_count=scn['jobs'])
            return W, fn, a, k
        if 'files' in tags:
            api.prepare_files(api.World(spa, scn['seed']))
        W, fn, a, k = world(spa)
        look = lambda: [api.view(list(a), spa), api.view(k, spa), [np.array(b) for b in W.keep]]
        before = look()
        name = '%s (layout %s%s, seed %d/%d)' % (scn['op'], scn['layout'], ', %s' % scn['special'] if scn['special'] else '',
                                                 scn['seed'], scn['params'])
        sim.faults.enabled = True
        n0 = len(sim.faults.fired)
        tracing = bool(scn['nfaults'])
        o = traced(sim, fn, *a, **k) if tracing else call(fn, *a, **k)
        sim.faults.enabled = False
        fired = len(sim.faults.fired) > n0
        out['cover'] = {'op ' + scn['op']: 1, 'layout ' + scn['layout']: 1,
                        ('failed by injection' if fired and not o.ok else 'raised by itself' if not o.ok else 'returned'): 1}
        out['outcome'] = repr(o)
        if o.hang:
            if fired:
                return None
            return violation('hang', '%s never returns' % name)
        d = api.same(before, look(), 'arguments')
        if d:
            return violation('changed', '%s: %s; the call %s%s' % (name, d, o, ', after an injected failure' if fired else ''))
        out['did'] = o.ok or fired
        if 'random' in tags or 'plot' in tags:
            # a second call must still find everything in place
            o2 = call(fn, *a, **k)
            d = api.same(before, look(), 'arguments')
            if d:
                return violation('changed', '%s, second call: %s; the call %s' % (name, d, o2))
            return None
        if fired and not o.ok:
            first = None
        elif not o.ok:
            o2 = call(fn, *a, **k)
            if o2.ok or type(o2.exc).__name__ != type(o.exc).__name__:
                return violation('repeat', '%s: first call %r, second call with the same arguments %r' % (name, o, o2))
            return None
        else:
            first = api.view(o.value, spa)
            mine = [] if scn['op'] not in VIEWS else api.arrays([list(a), k], spa)
            for x in api.arrays(o.value, spa):
                if x.flags.writeable and x.dtype.kind in 'fciub' and x.size and \
                        not any(np.may_share_memory(x, y) for y in mine):
                    x[...] = 113
            d = api.same(before, look(), 'arguments')
            if d:
                return violation('alias', '%s: the result shares memory with the arguments: %s' % (name, d))
        o2 = call(fn, *a, **k)
        if not o2.ok:
            if first is None:
                # the call may be impossible with these arguments in the first place
                _, fn3, a3, k3 = world(spa)
                o3 = call(fn3, *a3, **k3)
                if not o3.ok:
                    return None
                return violation('repeat', '%s: repeating the call after an injected failure: %r, but %r with fresh '
                                 'arguments' % (name, o2, o3))
            return violation('repeat', '%s: returned, but repeating the call with the same arguments: %r' % (name, o2))
        if first is None:
            _, fn3, a3, k3 = world(spa)
            o3 = call(fn3, *a3, **k3)
            if not o3.ok:
                return violation('repeat', '%s: %r with fresh arguments but %r when repeated after a failure'
                                 % (name, o3, o2))
            first = api.view(o3.value, spa)
        d = api.close(api.view(o2.value, spa), first, 1e-9, 'result')
        if d:
            return violation('repeat', '%s: repeating the call gives another result: %s' % (name, d))
        d = api.same(before, look(), 'arguments')
        if d:
            return violation('changed', '%s, second call: %s' % (name, d))
        out['digest'] = digest([str(type(o.value)), repr(o)])
        return None


CHECK = C09()
