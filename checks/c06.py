"""C06: a parallel call that cannot run as asked raises or is right; no worker stays behind; the next call works."""
from .common import *
from . import pool_ops


class C06(Check):
    id = 'C06'
    needs = ('resampy',)
    fault_kinds = {'shm.alloc': ['ENOMEM', 'ENOSPC', 'EMFILE'], 'sem.alloc': ['ENOSPC', 'EMFILE'],
                   'pool.alloc': ['EMFILE', 'ENOMEM'], 'proc.start': ['EAGAIN', 'ENOMEM'],
                   'task': ['MemoryError', 'RuntimeError', 'FloatingPointError'], 'worker.kill': ['SIGKILL'],
                   'thread.start': ['RuntimeError'], 'line': ['MemoryError', 'RuntimeError', 'FloatingPointError']}

    def scenario(self, rng):
        op = rng.choice(pool_ops.NAMES[:9] * 4 + pool_ops.NAMES[9:])
        bad = rng.random() < 0.2
        return dict(op=op, n=rng.choice([0, 2, 6, 15]), jobs=rng.choice([0, -1, -3]) if bad else
                    rng.choice([2, 3, 5, None]), cpu=rng.randint(2, 5), method=rng.choice(METHODS),
                    seed=rng.randrange(10 ** 6), nfaults=0 if bad else rng.choice([0, 1, 1, 1, 2]),
                    again=rng.choice([1, 2, 3]), lines=rng.random() < 0.35)

    def choose_faults(self, rng, hits, scn):
        kinds = self.fault_kinds
        sites = [s for s in sorted(hits) if s in kinds and hits[s]]
        out = []
        for _ in range(scn['nfaults']):
            if not sites:
                break
            if scn['lines'] and 'line' in sites and rng.random() < 0.8:
                sites = ['line']
            s = rng.choice([x for x in sites if x != 'worker.kill'] * 3 + [x for x in sites if x == 'worker.kill'])
            out.append(dict(site=s, nth=rng.randrange(hits[s]), kind=rng.choice(kinds[s])))
        return out

    def shrink(self, scn):
        if isinstance(scn['jobs'], int) and scn['jobs'] < 1:
            return shrink_ints(scn, dict(n=0, cpu=2))
        return shrink_ints(scn, dict(n=0, jobs=2, cpu=2))

    def nontrivial(self, scn, faults, res):
        return bool(res['fired']) or (isinstance(scn['jobs'], int) and scn['jobs'] < 1)

    def execute(self, scn, faults, strategy, out):
        with simenv(scn, faults, strategy, budget=600000,
                    trace='line' if scn['lines'] else None) as sim:
            out['sim'] = sim
            sim.faults.enabled = False
            spa = sim.load_main()
            sim.env['poison'] = 1e30
            # a worker may fail in the middle of a task
            sim.line_plan = lambda task, frame: task.proc is not sim.main.proc
            ref = pool_ops.workload(spa, scn['op'], scn['seed'], scn['n'])(1)
            f = pool_ops.workload(spa, scn['op'], scn['seed'], scn['n'])
            what = '%s(jobs_count=%r) with %s workers' % (scn['op'], scn['jobs'], scn['method'])
            sim.faults.enabled = True
            o = call(f, scn['jobs'], keep=True)
            sim.faults.enabled = False
            fired = ['%s:%s' % (x['site'], x['kind']) for x in sim.faults.fired]
            killed = any(x.startswith('worker.kill') for x in fired) or \
                any(t.exc is not None for t in sim.sched.tasks)      # died of an exception outside a task
            out['outcome'] = repr(o)
            out['cover'] = {'op ' + scn['op']: 1, ('hang' if o.hang else 'raised' if not o.ok else 'right'): 1}
            if o.ok:
                d = diff(o.value, ref)
                if d:
                    return violation('wrong-data', '%s, faults %s: returned wrong data%s' % (what, fired, d))
            if o.hang:
                if killed:
                    return None
                return violation('hang', '%s, faults %s: never returns' % (what, fired))
            bad = isinstance(scn['jobs'], int) and scn['jobs'] < 1
            if not o.ok and not fired and not bad:
                return violation('raises', '%s raises without any fault: %r' % (what, o))
            # (also while the caller still handles the exception)
            left = simmp.live_workers(sim)
            drop_frames(o)
            gc.collect()
            left = left or simmp.live_workers(sim)
            if left and not killed:
                return violation('workers-left', '%s, faults %s: %s; still running: %s' % (what, fired, out['outcome'],
                                                                                         left))
            for jobs in (scn['again'], 2 if bad else scn['jobs']):
                o = call(f, jobs)
                if o.hang or not o.ok:
                    return violation('no-recovery', '%s after faults %s: the next call with jobs %r: %r'
                                     % (what, fired, jobs, o))
                d = diff(o.value, ref)
                if d:
                    return violation('wrong-after', '%s after faults %s: the next call with jobs %r is wrong%s'
                                     % (what, fired, jobs, d))
            out['digest'] = digest(ref)
        return None


CHECK = C06()
