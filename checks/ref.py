"""Reference interpreter of C18: another process with another hash seed that makes one call at a time in a clean world."""
import os
import pickle
import struct
import subprocess
import sys

_server = None


def evaluate(spec):
    """Outcome and result of one catalogue call in a fresh image of the package, run alone and sequentially."""
    from . import api
    from .common import call, simenv
    from simkit import boot
    from simkit.sched import RandomStrategy
    boot.reset_globals()
    with simenv({}, [], RandomStrategy(1), budget=3000000) as sim:
        spa = sim.load_main()
        sim.env['poison'] = 113.25
        f, tags = api.OPS[spec['op']]
        if 'files' in tags:
            api.prepare_files(api.World(spa, spec['seed']))
        W = api.World(spa, spec['seed'], spec['layout'], special=spec['special'], params=spec['params'], style=spec['style'])
        if 'jobs' in tags and spec['jobs'] != 1:
            W.nsrc = 11
        fn, a, k = f(W)
        o = call(fn, *a, **k)
        if o.hang:
            return 'no return', None
        return ('returned', api.view(o.value, spa)) if o.ok else (type(o.exc).__name__, None)


def serve():
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    from simkit import boot, runner
    boot.boot()
    boot.prepare(runner.load_check('C18'))
    while True:
        h = sys.stdin.buffer.read(4)
        if len(h) < 4:
            break
        spec = pickle.loads(sys.stdin.buffer.read(struct.unpack('<I', h)[0]))
        try:
            r = evaluate(spec)
        except BaseException as e:
            r = ('harness', repr(e))
        b = pickle.dumps(r)
        out.write(struct.pack('<I', len(b)) + b)
        out.flush()


def ask(spec):
    global _server
    from simkit import runner
    from simkit.sched import HarnessError
    if _server is None or _server.poll() is not None:
        _server = subprocess.Popen([runner.PY, os.path.join(runner.ROOT, 'check.py'), '--ref'], stdin=subprocess.PIPE,
                                   stdout=subprocess.PIPE, env=runner.worker_env('97'))
    b = pickle.dumps(spec)
    _server.stdin.write(struct.pack('<I', len(b)) + b)
    _server.stdin.flush()
    h = _server.stdout.read(4)
    if len(h) < 4:
        raise HarnessError('the reference interpreter died')
    r = pickle.loads(_server.stdout.read(struct.unpack('<I', h)[0]))
    if r[0] == 'harness':
        raise HarnessError('reference: %s' % r[1])
    return r
