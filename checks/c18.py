"""C18: computations depend on their arguments only and leave the global generator and numeric settings alone."""
import os
import random
from .common import *
from . import api
from .ref import ask
from .c09 import NONFINITE

NOT = {'plot', 'random', 'long'}
WRITES = {'save_audio', 'save_audio_array', 'save_layout', 'write_ssr_brirs_sdm', 'write_ssr_brirs_loudspeaker', 'get_default_hrirs'}
OPS = [k for k in api.CHEAP if not api.OPS[k][1] & NOT and k not in WRITES]
OTHER = [k for k in api.ALL if not api.OPS[k][1] & NOT and k not in OPS and k not in WRITES]
_answers = {}


def settings():
    s = np.random.get_state()
    p = np.get_printoptions()
    return dict(generator=(s[0], s[1].tobytes(), s[2:]), python=random.getstate(), errors=np.geterr(), errcall=repr(np.geterrcall()),
                printing={k: repr(p[k]) for k in sorted(p)}, bufsize=np.getbufsize(), directory=os.getcwd() if os.path.isdir('/proc') else '')


class C18(Check):
    id = 'C18'
    needs = ('resampy',)
    fault_kinds = {'line': ['MemoryError', 'KeyboardInterrupt', 'RuntimeError']}

    def scenario(self, rng):
        op = rng.choice(OPS) if rng.random() < .85 else rng.choice(OTHER)
        mk = lambda o: dict(op=o, params=rng.randrange(300), seed=rng.randrange(60), layout=rng.choice(['c', 'c', 'c', 'f', 'stride', 'f4']),
                          style=rng.choice(api.STYLES))
        main = mk(op)
        special = rng.choice([None] * 7 + ['nan', 'inf', 'zero'])
        main['special'] = None if op in NONFINITE and special in ('nan', 'inf') else special
        before = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            b = mk(op if rng.random() < .7 else rng.choice(OPS))
            if rng.random() < .3:
                b['seed'] = main['seed']
            if rng.random() < .3:
                b['params'] = main['params']
            b['same'] = rng.random() < .15
            before.append(b)
        jobs = 'jobs' in api.OPS[op][1]
        return dict(main=main, before=before, rng=rng.choice([None, 1, 99, 2 ** 31]), draw=rng.choice([0, 3, 700]),
                    clock=rng.choice([None, -1.5e9, 3e9, 1e7]), jumps=rng.random() < .2, cpu=rng.choice([1, 2, 3, 6]), method=rng.choice(METHODS),
                    jobs=rng.choice([1, 1, 2, 3, None]) if jobs else 1, cwd=rng.choice([None, None, 'sub', 'gone', 'data']),
                    poison=rng.choice(['nan', 'nan', '1e300', '-7.5', '0.0']), seterr=rng.choice([None, None, 'ignore', 'warn', 'print']),
                    home=rng.random() < .2, nfaults=1 if before and rng.random() < .3 else 0, twice=rng.random() < .3)

    def shrink(self, scn):
        out = shrink_list(scn, 'before', 0)
        for k, v in (('rng', None), ('draw', 0), ('clock', None), ('jumps', False), ('cwd', None), ('poison', '-7.5'), ('seterr', None),
                     ('home', False), ('jobs', 1), ('twice', False)):
            if scn[k] != v:
                out.append(dict(scn, **{k: v}))
        for k, v in (('layout', 'c'), ('special', None), ('style', None)):
            if scn['main'][k] != v:
                out.append(dict(scn, main=dict(scn['main'], **{k: v})))
        return out

    def nontrivial(self, scn, faults, res):
        return res['info'].get('returned', False)

    def execute(self, scn, faults, strategy, out):
        spec = dict(scn['main'], jobs=scn['jobs'])
        key = repr(sorted(spec.items(), key=str))
        if key not in _answers:
            _answers[key] = ask(spec)
            if len(_answers) > 300:
                _answers.pop(next(iter(_answers)))
        want = _answers[key]
        olderr = np.geterr()
        try:
            with simenv(scn, faults, strategy, budget=6000000, trace='line') as sim:
                out['sim'] = sim
                sim.trace = None
                sim.faults.enabled = False
                line_fault(sim)
                return self.run(sim, scn, want, out)
        finally:
            np.seterr(**olderr)
            os.chdir('/')

    def world(self, s, scn, c):
        f, tags = api.OPS[c['op']]
        W = api.World(s, c['seed'], c['layout'], special=c.get('special'), params=c['params'], style=c.get('style'))
        k2 = {}
        if 'jobs' in tags and scn['jobs'] != 1 and c is scn['main']:
            W.nsrc = 11
            k2 = dict(jobs_count=scn['jobs'])
        fn, a, k = f(W)
        return fn, a, dict(k, **k2)

    def run(self, sim, scn, want, out):
        from simkit import fs as simfs
        spa = sim.load_main()
        m = scn['main']
        if any('files' in api.OPS[c['op']][1] for c in [m] + scn['before']):
            api.prepare_files(api.World(spa, m['seed']))
        # the state of everything that should not matter
        if scn['cwd'] == 'gone':
            d = os.path.join(simfs.scratch(), 'gone')
            simfs.R['mkdir'](d)
            os.chdir(d)
            simfs.R['rmdir'](d)
        elif scn['cwd']:
            d = os.path.join(simfs.scratch(), scn['cwd'])
            os.makedirs(d, exist_ok=True)
            os.chdir(d)
        if scn['home']:
            os.environ['HOME'] = '/nonexistent'
        if scn['rng'] is not None:
            np.random.seed(scn['rng'])
            random.seed(scn['rng'])
        np.random.rand(scn['draw'])
        if scn['draw']:
            np.random.randn(1)             # (leaves a cached second gaussian)
        if scn['clock']:
            sim.env['clock_offset'] = scn['clock']
        if scn['jumps']:
            sim.env['clock_jumps'] = [-3e7, 9e7, 0.0, -1e9] * 10
        if scn['seterr']:
            np.seterr(all=scn['seterr'])
        sim.env['poison'] = float(scn['poison'])
        hist = []
        for b in scn['before']:
            c = dict(m, same=True) if b['same'] else b
            fn, a, k = self.world(spa, scn, c)
            s0 = settings0(scn)
            sim.faults.enabled = True
            n0 = len(sim.faults.fired)
            o = traced(sim, fn, *a, **k) if scn['nfaults'] else call(fn, *a, **k)
            sim.faults.enabled = False
            hist.append('%s%s' % (c['op'], '' if o.ok else '=' + (type(o.exc).__name__ if o.exc else 'hang')))
            if len(sim.faults.fired) > n0:
                np.seterr(**s0['errors'])           # (a failure right at the end of a with block skips it: not claimed)
            d = changed(s0, settings0(scn))
            if d:
                return violation('settings', '%s(seed %d/%d): %s' % (c['op'], c['seed'], c['params'], d))
            if o.hang and len(sim.faults.fired) == n0:
                return violation('hang', '%s' % hist)
        env = ', '.join('%s %s' % (k, scn[k]) for k in ('rng', 'clock', 'cpu', 'jobs', 'cwd', 'poison', 'seterr') if scn[k] is not None)
        text = '%s (seed %d/%d, %s, %s) after [%s] with %s' % (m['op'], m['seed'], m['params'], m['layout'], m['special'],
                                                               ' '.join(hist), env)
        for rep in range(2 if scn['twice'] else 1):
            fn, a, k = self.world(spa, scn, m)
            s0 = settings0(scn)
            o = call(fn, *a, **k)
            d = changed(s0, settings0(scn))
            if d:
                return violation('settings', '%s: %s' % (text, d))
            got = 'no return' if o.hang else 'returned' if o.ok else type(o.exc).__name__
            if got != want[0] and not (scn['jobs'] != 1 and not o.ok and want[1] is None):
                return violation('depends', '%s: %r, but alone and in order: %s' % (text, o, want[0]))
            if o.ok:
                d = api.close(api.view(o.value, spa), want[1], 1e-9, 'result')
                if d:
                    return violation('depends', '%s: %s' % (text, d))
                out['returned'] = True
        out['cover'] = {'op ' + m['op']: 1, 'after %d calls' % len(hist): 1}
        out['digest'] = digest([hist, got])
        return None


def settings0(scn):
    s = settings() if scn['cwd'] != 'gone' else None
    if s is None:
        cwd = os.getcwd
        os.getcwd = lambda: 'gone'
        try:
            s = settings()
        finally:
            os.getcwd = cwd
    return s


def changed(a, b):
    for k in a:
        if a[k] != b[k]:
            return {'generator': 'advanced the global random generator of numpy', 'python': 'advanced the global random generator'}.get(
                k, 'left %s changed: %r became %r' % (k, a[k], b[k]))
    return None


CHECK = C18()
