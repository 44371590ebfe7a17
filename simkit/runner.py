"""Runs one check: shards seeds over worker interpreters, minimises, writes replay and evidence files."""
import hashlib
import importlib
import json
import os
import random
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
STALL = 150           # seconds of real time without progress in one run: the harness gives up
REPO = os.environ.get('VERIF_REPO', '/repo')


def subseed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], 'big')


def worker_env(hashseed='0'):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(('PYTHON', 'NUMBA_', 'MPL', 'OMP_', 'OPENBLAS')):
            del e[k]
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=hashseed, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             MKL_NUM_THREADS='1', NUMBA_NUM_THREADS='1', MALLOC_ARENA_MAX='2',
             MALLOC_MMAP_THRESHOLD_='2000000000', MALLOC_TRIM_THRESHOLD_='2000000000', MPLBACKEND='Agg', VERIF_REPO=REPO,
             PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', LC_ALL='C.UTF-8')
    return e


# =============================================================================== inside a worker
class Ctx:
    """What a check's execute() gets for one execution."""

    def __init__(self, strategy, faults, record=None):
        self.strategy = strategy
        self.faults = faults


def execute(check, scn, faults, strategy):
    """One simulated execution -> result dict (violation or None, metrics)."""
    from . import boot
    from .sched import HarnessError
    boot.reset_globals()
    out = {}
    t0 = time.perf_counter()
    v = check.execute(scn, faults, strategy, out)
    sim = out.pop('sim', None)
    res = dict(violation=v, wall=time.perf_counter() - t0, info=out)
    if sim is not None:
        sc = sim.sched
        res.update(decisions=sc.n, switches=len(sc.switches), sched=sc.schedule_hash(),
                   deviations={str(k): t for k, t in sc.deviations.items()},
                   simtime=sc.now, tasks=len(sc.tasks), procs=len(sim.procs), stats=dict(sim.stats),
                   hits=dict(sim.faults.hits), fired=[dict(f) for f in sim.faults.fired])
    else:
        res.update(decisions=0, switches=0, sched='-', deviations={}, simtime=0.0, tasks=1, procs=1, stats={},
                   hits={}, fired=[])
    d = dict(v=(v or {}).get('class'), s=res['sched'], n=res['decisions'], o=out.get('digest'),
             f=res['fired'])
    res['digest'] = hashlib.sha256(json.dumps(d, sort_keys=True, default=str).encode()).hexdigest()[:16]
    return res


def one_run(check, seed):
    """A seed is one scenario, one fault plan and one schedule."""
    from .sched import RandomStrategy
    rng = random.Random(subseed(seed, 'scenario'))
    scn = check.scenario(rng)
    mk = lambda: check.strategy(subseed(seed, 'schedule'), scn)
    faults = []
    dry = None
    if check.wants_faults(scn):
        dry = execute(check, scn, [], mk())
        if dry['violation'] is not None:
            return scn, [], dry
        faults = check.choose_faults(random.Random(subseed(seed, 'faults')), dry['hits'], scn)
        if not faults:
            return scn, [], dry
    res = execute(check, scn, faults, mk())
    if dry is not None:
        res['dry'] = 1
    return scn, faults, res


def load_check(cid):
    sys.path.insert(0, ROOT)
    mod = importlib.import_module('checks.' + cid.lower())
    return mod.CHECK


def cover_lines(path):
    """Diagnostic (VERIF_COV=dir): which lines of the package the runs of this worker reach."""
    import atexit
    seen = set()
    m = sys.monitoring
    m.use_tool_id(4, 'cover')

    def line(code, n):
        if code.co_filename.startswith(REPO):
            seen.add((code.co_filename, n))
        return m.DISABLE
    m.register_callback(4, m.events.LINE, line)
    m.set_events(4, m.events.LINE)

    def dump():
        with open(path, 'w') as f:
            json.dump(sorted(seen), f)
    atexit.register(dump)


def worker_main(args):
    """argv: cid seed tier w W n out"""
    cid, base, tier, w, W, n, outp = args
    base, w, W, n = int(base), int(w), int(W), int(n)
    from . import boot
    boot.boot()
    check = load_check(cid)
    check.tier = tier
    boot.prepare(check)
    agg = dict(runs=0, executions=0, decisions=0, switches=0, simtime=0.0, stats={}, fired={}, hits={}, sched=[],
               nontrivial=[], samples=[], cover={}, wall=0.0, violation=None, digests={}, maxtasks=0, procs=0)
    t0 = time.time()
    known = load_known(cid)
    agg['known'] = {}
    if os.environ.get('VERIF_COV'):
        cover_lines(os.path.join(os.environ['VERIF_COV'], '%s.%d' % (cid, w)))
    import faulthandler
    for i in range(w, n, W):
        seed = subseed(base, cid, i)
        with open(outp + '.run', 'w') as f:
            f.write('%s run %d\n' % (cid, i))
        faulthandler.dump_traceback_later(STALL, exit=True)
        scn, faults, res = one_run(check, seed)
        agg['runs'] += 1
        agg['executions'] += 1 + res.get('dry', 0)
        agg['decisions'] += res['decisions']
        agg['switches'] += res['switches']
        agg['simtime'] += res['simtime']
        agg['maxtasks'] = max(agg['maxtasks'], res['tasks'])
        agg['procs'] += res['procs']
        for k, c in res['stats'].items():
            agg['stats'][k] = agg['stats'].get(k, 0) + c
        for f in res['fired']:
            k = f['site'] + ':' + str(f.get('kind'))
            agg['fired'][k] = agg['fired'].get(k, 0) + 1
        for k, c in res['info'].get('cover', {}).items():
            agg['cover'][k] = agg['cover'].get(k, 0) + c
        key = hashlib.sha256(json.dumps([scn, faults, res['sched']], sort_keys=True).encode()).hexdigest()[:16]
        agg['sched'].append(res['sched'])
        if check.nontrivial(scn, faults, res):
            agg['nontrivial'].append(key)
        agg['digests'][i] = res['digest']
        if len(agg['samples']) < 2 and check.nontrivial(scn, faults, res):
            agg['samples'].append(dict(run=i, scenario=scn, faults=faults, schedule=dict(
                decisions=res['decisions'], switches=res['switches'], deviations=len(res['deviations'])),
                outcome=res['info'].get('outcome', 'held')))
        v = res['violation']
        if v is not None:
            if v.get('sig') in known:
                agg['known'][v['sig']] = known[v['sig']]
                continue
            agg['violation'] = dict(run=i, seed=seed, scenario=scn, faults=faults, deviations=res['deviations'],
                                    violation=v)
            break
    faulthandler.cancel_dump_traceback_later()
    agg['wall'] = time.time() - t0
    with open(outp, 'w') as f:
        json.dump(agg, f, default=str)


def minimise(check, viol, max_exec=220, max_wall=150):
    from .sched import ReplayStrategy
    best = dict(scenario=viol['scenario'], faults=viol['faults'], deviations=viol['deviations'],
                violation=viol['violation'])
    cls = viol['violation']['class']
    t0 = time.time()
    count = [0]

    def attempt(scn, faults, dev):
        if count[0] >= max_exec or time.time() - t0 > max_wall:
            return None
        count[0] += 1
        try:
            r = execute(check, scn, faults, ReplayStrategy(dev))
        except Exception:
            return None
        if r['violation'] is not None and r['violation']['class'] == cls:
            return dict(scenario=scn, faults=faults, deviations=r['deviations'], violation=r['violation'])
        return None
    first = attempt(best['scenario'], best['faults'], best['deviations'])
    if first is None:
        return best, count[0], False
    best = first
    # no schedule deviation at all?
    r = attempt(best['scenario'], best['faults'], {})
    if r is not None:
        best = r
    changed = True
    while changed and count[0] < max_exec and time.time() - t0 < max_wall:
        changed = False
        for i in range(len(best['faults']) - 1, -1, -1):
            r = attempt(best['scenario'], best['faults'][:i] + best['faults'][i + 1:], best['deviations'])
            if r is not None:
                best = r
                changed = True
        for scn in check.shrink(best['scenario']):
            r = attempt(scn, best['faults'], best['deviations']) or attempt(scn, best['faults'], {})
            if r is not None:
                best = r
                changed = True
                break
    # delta debugging of the schedule
    keys = sorted(best['deviations'], key=int)
    n = 2
    while len(keys) >= 1 and count[0] < max_exec and time.time() - t0 < max_wall:
        size = max(1, len(keys) // n)
        done = False
        for s in range(0, len(keys), size):
            sub = keys[:s] + keys[s + size:]
            r = attempt(best['scenario'], best['faults'], {k: best['deviations'][k] for k in sub})
            if r is not None and len(r['deviations']) < len(keys):
                best = r
                keys = sorted(best['deviations'], key=int)
                n = max(2, n - 1)
                done = True
                break
        if not done:
            if size == 1:
                break
            n = min(len(keys), n * 2)
    return best, count[0], True


def minimise_main(args):
    cid, inp, outp = args
    from . import boot
    boot.boot()
    check = load_check(cid)
    check.tier = 'quick'
    boot.prepare(check)
    viol = json.load(open(inp))
    best, n, ok = minimise(check, viol)
    rep = dict(property=cid, seed=viol['seed'], run=viol['run'], scenario=best['scenario'], faults=best['faults'],
               schedule=best['deviations'], violation=best['violation'], minimised=ok, executions=n,
               original=dict(scenario=viol['scenario'], faults=viol['faults'],
                             deviations=len(viol['deviations'])))
    with open(outp, 'w') as f:
        json.dump(rep, f, indent=1, default=str)
        f.write('\n')


def replay(path):
    """Executes a replay file in this interpreter; returns (reproduced, violation)."""
    from . import boot
    from .sched import ReplayStrategy
    rep = json.load(open(path))
    boot.boot()
    check = load_check(rep['property'])
    check.tier = 'quick'
    boot.prepare(check)
    res = execute(check, rep['scenario'], rep['faults'], ReplayStrategy(rep['schedule']))
    v = res['violation']
    return (v is not None and v['class'] == rep['violation']['class']), v


def digest_main(args):
    """argv: cid seed idx,idx,... out : digests of some runs (executed under another hash seed)"""
    cid, base, idx, outp = args
    from . import boot
    boot.boot()
    check = load_check(cid)
    check.tier = 'quick'
    boot.prepare(check)
    out = {}
    for i in [int(x) for x in idx.split(',') if x]:
        out[i] = one_run(check, subseed(int(base), cid, i))[2]['digest']
    json.dump(out, open(outp, 'w'))


# =============================================================================== parent
def load_known(cid):
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s signature=' % cid):
                rest = l.split('signature=', 1)[1]
                sig, _, text = rest.partition(' ')
                out[sig] = text
    return out


class Scratch:
    def __init__(self):
        import tempfile
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.path = tempfile.mkdtemp(prefix='simkit-', dir=base)

    def close(self):
        import shutil
        shutil.rmtree(self.path, ignore_errors=True)


def spawn(args, env, err, low_priv=False):
    return subprocess.Popen([PY, os.path.join(ROOT, 'check.py')] + [str(a) for a in args], env=env, cwd=ROOT,
                            stdin=subprocess.DEVNULL, stdout=err, stderr=err)


def run_check(cid, tier, base):
    t0 = time.time()
    sys.path.insert(0, ROOT)
    from checks import REGISTRY
    meta = REGISTRY[cid]
    n = int(os.environ.get('VERIF_RUNS', meta['runs'][tier]))
    W = min(int(os.environ.get('VERIF_WORKERS', os.cpu_count() or 4)), max(1, n))
    cap = float(os.environ.get('VERIF_CAP', 700 if tier == 'quick' else 6 * 3600))
    scr = Scratch()
    env = worker_env()
    env['SIMKIT_SCRATCH'] = scr.path
    try:
        procs = []
        for w in range(W):
            outp = os.path.join(scr.path, 'agg%d.json' % w)
            err = open(os.path.join(scr.path, 'err%d.txt' % w), 'wb')
            procs.append((spawn(['--worker', cid, base, tier, w, W, n, outp], env, err), outp, err))
        # determinism sample under another hash seed
        step = max(1, n // 4)
        sample = list(range(0, n, step))[:4]
        dout = os.path.join(scr.path, 'digest.json')
        derr = open(os.path.join(scr.path, 'errd.txt'), 'wb')
        e2 = worker_env('12345')
        e2['SIMKIT_SCRATCH'] = scr.path
        dproc = spawn(['--digest', cid, base, ','.join(map(str, sample)), dout], e2, derr)
        failed = None
        for p, outp, err in procs:
            left = cap - (time.time() - t0)
            try:
                rc = p.wait(timeout=max(1, left))
            except subprocess.TimeoutExpired:
                failed = 'wall cap reached'
                break
            if rc != 0:
                failed = 'worker failed (rc %s) in %s' % (rc, open(outp + '.run').read().strip()
                                                         if os.path.exists(outp + '.run') else 'setup')
                break
        if failed is None:
            try:
                dproc.wait(timeout=max(1, cap - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                failed = 'wall cap reached'
        if failed:
            for p, _, _ in procs + [(dproc, 0, 0)]:
                if p.poll() is None:
                    p.kill()
                    p.wait()
            sys.stdout.write('ERROR %s: %s\n' % (cid, failed))
            for w in list(range(W)) + ['d']:
                q = os.path.join(scr.path, 'err%s.txt' % w)
                txt = open(q, errors='replace').read() if os.path.exists(q) else ''
                if txt.strip():
                    sys.stdout.write(txt[-3000:] + '\n')
                    break
            return 2
        aggs = [json.load(open(o)) for _, o, _ in procs]
        digests = {}
        for a in aggs:
            digests.update({int(k): v for k, v in a['digests'].items()})
        try:
            other = {int(k): v for k, v in json.load(open(dout)).items()}
        except Exception:
            other = {}
        same = sum(1 for k, v in other.items() if digests.get(k) == v)
        differ = sorted(k for k, v in other.items() if k in digests and digests[k] != v)
        for a in aggs:
            for sig, text in a.get('known', {}).items():
                pass
        known = {}
        for a in aggs:
            known.update(a.get('known', {}))
        for sig, text in sorted(known.items()):
            print('KNOWN-FINDING: property=%s %s' % (cid, text))
        viols = sorted([a['violation'] for a in aggs if a['violation']], key=lambda v: v['run'])
        rc = 0
        if viols:
            rc = report(cid, viols, scr, env)
        evidence(cid, tier, base, meta, aggs, t0, len(viols) if rc == 1 else 0, same, differ, W)
        if rc == 0:
            runs = sum(a['runs'] for a in aggs)
            print('OK %s: %d simulated runs, %.1f s' % (cid, runs, time.time() - t0))
        return rc
    finally:
        scr.close()


def report(cid, viols, scr, env):
    rdir = os.path.join(ROOT, 'replays')
    os.makedirs(rdir, exist_ok=True)
    last = None
    t0 = time.time()
    for k, viol in enumerate(viols[:8]):
        if k > 1 and time.time() - t0 > 200:
            break
        inp = os.path.join(scr.path, 'viol%d.json' % k)
        json.dump(viol, open(inp, 'w'))
        outp = os.path.join(rdir, '%s-%d.json' % (cid, viol['run']))
        err = open(os.path.join(scr.path, 'errm.txt'), 'wb')
        p = spawn(['--minimise', cid, inp, outp], env, err)
        try:
            p.wait(timeout=300)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        if p.returncode != 0 or not os.path.exists(outp):
            json.dump(dict(property=cid, seed=viol['seed'], run=viol['run'], scenario=viol['scenario'],
                           faults=viol['faults'], schedule=viol['deviations'], violation=viol['violation'],
                           minimised=False), open(outp, 'w'), indent=1)
        for attempt in range(3):
            p = subprocess.Popen([PY, os.path.join(ROOT, 'check.py'), '--replay', outp], env=env, cwd=ROOT,
                                 stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            try:
                txt = p.communicate(timeout=200)[0].decode(errors='replace')
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                continue
            if p.returncode == 1:
                v = json.load(open(outp))['violation']
                print('%s run %d: %s: %s' % (cid, viol['run'], v['class'], v.get('detail', '')))
                print('VIOLATION property=%s replay=%s' % (cid, outp))
                return 1
            last = txt
    print('ERROR %s: a violation did not reproduce from its replay file' % cid)
    print((last or '')[-2000:])
    return 2


def evidence(cid, tier, base, meta, aggs, t0, nviol, same, differ, W):
    def tot(k):
        return sum(a[k] for a in aggs)

    def merged(k):
        out = {}
        for a in aggs:
            for kk, c in a[k].items():
                out[kk] = out.get(kk, 0) + c
        return dict(sorted(out.items()))
    runs = tot('runs')
    wall = time.time() - t0
    distinct = set()
    scheds = set()
    for a in aggs:
        distinct.update(a['nontrivial'])
        scheds.update(a['sched'])
    samples = [s for a in aggs for s in a['samples']][:3]
    cov = dict(evaluations=runs, distinct_nontrivial=len(distinct), rule=meta['rule'], samples=samples,
               simulated_executions=tot('executions'), runs_per_hour=int(runs / max(wall, 1e-3) * 3600),
               seeds_per_hour=int(runs / max(wall, 1e-3) * 3600), simulated_seconds=round(tot('simtime'), 3),
               scheduler_decisions=tot('decisions'), context_switches=tot('switches'),
               distinct_interleavings=len(scheds), interleaving_measure='hash of the complete switch sequence of a run',
               most_tasks_in_a_run=max(a['maxtasks'] for a in aggs), simulated_processes=tot('procs'),
               faults_injected=merged('fired'), simulator_events=merged('stats'), reached=merged('cover'),
               determinism=dict(replayed_under_other_hash_seed=same, differing=differ),
               real_components=meta['real'], stub_components=meta['stub'], workers=W)
    ev = dict(property=cid, tier=tier, seed=base, level='exploration', coverage=cov, assumptions=meta['assume'],
              wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', cid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
