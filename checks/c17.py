"""C17: the package imports and computes in every state of git and the audio back end."""
import sys
import types
from .common import *
from . import api

NOT = {'plot', 'random', 'long'}
OPS = [k for k in api.CHEAP if not api.OPS[k][1] & NOT]
OTHER = [k for k in api.ALL if not api.OPS[k][1] & NOT and k not in OPS and k != 'get_default_hrirs']
GIT = ['ok', 'ok', 'missing', 'denied', 'enomem', 'emfile', 'fail', 'killed', 'eagain', 'notdir', 'loop', 'format', 'preexec', 'memory',
       'null', 'nocwd']
OUT = [None, None, '', '\n', '\xff\xfe\x00rubbish', '\x00', 'x' * 70000, 'fatal: bad object\n', 'v0.2.0\nwarning: \xe9\n', '  ', '12', '{}',
       'v1.0-1-g0-dirty', '\xc3\xa9']
AUDIO = ['ok', 'ok', 'none', 'ImportError', 'ModuleNotFoundError', 'OSError', 'PortAudioError', 'PortAudioError', 'AttributeError',
         'RuntimeError', 'empty', 'broken', 'MemoryError', 'UnicodeError', 'KeyError', 'TypeError', 'badmsg']


class PortAudioError(Exception):
    pass


class BadMessage(Exception):
    def __str__(self):
        return 'kein Ger\xe4t gefunden'


class Failing:
    """Finder of a sounddevice module that cannot be initialised."""

    def __init__(self, exc):
        self.exc = exc

    def find_spec(self, name, path=None, target=None):
        if name == 'sounddevice':
            import importlib.machinery
            return importlib.machinery.ModuleSpec(name, self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        raise self.exc


class C17(Check):
    id = 'C17'
    needs = ('resampy',)

    def scenario(self, rng):
        calls = [dict(op=rng.choice(OPS) if rng.random() < .85 else rng.choice(OTHER), params=rng.randrange(1000))
                 for _ in range(rng.randint(1, 4))]
        if rng.random() < .4:
            calls.append(dict(op=rng.choice(['save_layout', 'save_audio', 'save_audio_array', 'load_hrirs']), params=rng.randrange(1000)))
        git = rng.choice(GIT)
        return dict(git=git, out=rng.choice(OUT) if git == 'ok' else None, audio=rng.choice(AUDIO), calls=calls, seed=rng.randrange(200),
                    jobs=2 if rng.random() < .25 else 1, method=rng.choice(METHODS), cpu=rng.randint(1, 4), stdout=rng.choice(['ok'] * 5 + ['none']),
                    again=rng.random() < .2)

    def shrink(self, scn):
        out = shrink_list(scn, 'calls', 0)
        for k, v in (('git', 'ok'), ('out', None), ('audio', 'ok'), ('jobs', 1), ('stdout', 'ok'), ('again', False)):
            if scn[k] != v:
                out.append(dict(scn, **{k: v}))
        return out

    def nontrivial(self, scn, faults, res):
        return scn['git'] != 'ok' or scn['out'] is not None or scn['audio'] != 'ok'

    def execute(self, scn, faults, strategy, out):
        finder = None
        stdout = sys.stdout
        with simenv(scn, faults, strategy, budget=3000000) as sim:
            out['sim'] = sim
            spa = sim.load_main()
            sim.faults.enabled = False
            if any('files' in api.OPS[c['op']][1] for c in scn['calls']):
                api.prepare_files(api.World(spa, scn['seed']))
            want = [self.one(spa, scn, c) for c in scn['calls']]
            sim.env['git'] = dict(kind=scn['git'], **({} if scn['out'] is None else dict(out=scn['out'])))
            a = scn['audio']
            for site, kind in (('git', scn['git'] if scn['out'] is None else 'rubbish'), ('audio', a)):
                if kind != 'ok':
                    sim.faults.fired.append(dict(site='import.' + site, nth=0, kind=kind))
            try:
                if scn['stdout'] == 'none':
                    sys.stdout = None
                if a == 'none':
                    sys.modules['sounddevice'] = None
                elif a == 'empty':
                    sys.modules['sounddevice'] = types.ModuleType('sounddevice')
                elif a == 'broken':
                    sys.modules['sounddevice'] = m = types.ModuleType('sounddevice')
                    m.PortAudioError = PortAudioError

                    def no(*a, **k):
                        raise PortAudioError('Error querying device -1')
                    m.play = m.wait = m.stop = m.query_devices = no
                    m.default = types.SimpleNamespace(samplerate=None, device=None)
                elif a != 'ok':
                    e = {'PortAudioError': PortAudioError('Error initializing PortAudio'), 'badmsg': BadMessage()}.get(a)
                    if e is None:
                        e = getattr(__import__('builtins'), a)('PortAudio library not found')
                    sys.modules.pop('sounddevice', None)
                    finder = Failing(e)
                    sys.meta_path.insert(0, finder)
                box = []

                def app(s):
                    box.append(s)
                    ver = s.__version__
                    got = [self.one(s, scn, c) for c in scn['calls']]
                    play = [call(s.sig.MonoSignal([0., .5, 0.], 48000).play),
                            call(s.sig.MultiSignal([[0., .5, 0.], [0., .1, 0.]], fs=48000).play, wait=False)]
                    return ver, got, play
                for rep in range(2 if scn['again'] else 1):
                    res = []
                    p, t = sim.spawn_process('app', lambda s: res.append(app(s)))
                    try:
                        sim.join([t])
                    except SimHang:
                        return violation('hang', 'git %s, audio %s: never returns' % (scn['git'], a))
                    if isinstance(t.exc, HarnessError):
                        raise t.exc
                    if t.exc is not None and not box:
                        return violation('import', 'git %s (%r), audio %s: import failed: %r' % (scn['git'], scn['out'], a, t.exc))
                    if t.exc is not None:
                        raise HarnessError('%r' % (t.exc,))
                    ver, got, play = res[0]
                    x = self.judge(scn, ver, want, got, play)
                    if x:
                        return x
            finally:
                sys.stdout = stdout
                if finder is not None:
                    sys.meta_path.remove(finder)
                from simkit import env
                sys.modules['sounddevice'] = env.SD
            out['cover'] = {'git ' + scn['git']: 1, 'audio ' + a: 1}
            if scn['out'] is not None:
                out['cover']['rubbish version'] = 1
            out['digest'] = digest([str(ver), [w[0] for w in want]])
        return None

    def judge(self, scn, ver, want, got, play):
        env = 'git %s (%r), audio %s' % (scn['git'], scn['out'] and scn['out'][:20], scn['audio'])
        if not isinstance(ver, str):
            return violation('version', '%s: version is %r' % (env, ver))
        for c, w, g in zip(scn['calls'], want, got):
            if w[0] != g[0]:
                return violation('works', '%s: %s %s instead of %s' % (env, c['op'], g[0], w[0]))
            d = w[1] is not None and api.close(g[1], w[1], 1e-9, 'result')
            if d:
                return violation('works', '%s: %s gives another result: %s' % (env, c['op'], d))
        for o in play:
            if o.hang:
                return violation('hang', '%s: play never returns' % env)
            if o.ok != (scn['audio'] == 'ok'):
                return violation('play', '%s: playing %r' % (env, o))
        return None

    def one(self, s, scn, c):
        f, tags = api.OPS[c['op']]
        W = api.World(s, scn['seed'], params=c['params'])
        if 'jobs' in tags and scn['jobs'] > 1:
            W.nsrc = 11
        fn, a, k = f(W)
        if 'jobs' in tags and scn['jobs'] > 1:
            k = dict(k, jobs_count=scn['jobs'])
        o = call(fn, *a, **k)
        if o.hang:
            return 'no return', None
        return ('returned', api.view([o.value, list(a)], s)) if o.ok else (type(o.exc).__name__, None)


CHECK = C17()
