"""Deterministic scheduler: real threads, one baton, seeded or replayed decisions, virtual time.

Every simulated process or thread is a Task carried by a real Python thread. Exactly one task holds the baton.
At a *point* the running task may be preempted; at a *block* it must hand over until its predicate holds.
Every point/block consumes one decision number.  The default decision is "stay on the current task, else the runnable
task with the lowest id"; a run is described by its deviations from the default: {decision number: task id}.
"""
import threading as _threading
import _thread
import random
import hashlib
import sys

_allocate = _thread.allocate_lock


class SimExit(BaseException):
    """Unwinds a simulated task when its run is over (never seen by the code under test otherwise)."""


class SimHang(BaseException):
    """No task can run and no timer is pending."""


class SimBudget(BaseException):
    """The run used more decisions than its budget."""


class HarnessError(Exception):
    pass


class Task:
    __slots__ = ('id', 'name', 'proc', 'baton', 'state', 'pred', 'wake', 'thread', 'fn', 'result', 'exc',
                 'done', 'sim', 'kill_at', 'npoints', 'warnings', 'extra', 'inject', 'onexit', 'nopreempt')

    def __init__(self, sim, tid, name, proc, fn):
        self.sim = sim
        self.id = tid
        self.name = name
        self.proc = proc
        self.fn = fn
        self.baton = _allocate()
        self.baton.acquire()
        self.state = 'ready'       # ready | blocked | done | dead
        self.pred = None
        self.wake = None
        self.result = None
        self.exc = None
        self.done = False
        self.thread = None
        self.npoints = 0
        self.kill_at = None
        self.warnings = []
        self.extra = {}
        self.inject = None
        self.onexit = []
        self.nopreempt = 0

    def alive(self):
        return self.state in ('ready', 'blocked')


class Strategy:
    """Decides at each decision number; returns None to follow the default."""

    def begin(self, sim):
        pass

    def at_point(self, sim, n, cur):
        return None

    def at_block(self, sim, n, runnable):
        return None


class ReplayStrategy(Strategy):
    def __init__(self, deviations):
        self.dev = {int(k): v for k, v in dict(deviations).items()}

    def at_point(self, sim, n, cur):
        return self.dev.get(n)

    def at_block(self, sim, n, runnable):
        return self.dev.get(n)


class RandomStrategy(Strategy):
    """A swarm of random schedulers, one chosen per run by the seed."""

    def __init__(self, seed, mode=None):
        self.rng = random.Random(seed)
        r = self.rng
        self.mode = mode or r.choice(['geo', 'geo', 'geo', 'pct', 'burst', 'fair'])
        self.mean = r.choice([2, 4, 8, 16, 40, 120])
        self.next = 0
        self.prio = {}
        self.changes = None
        self.horizon = r.choice([60, 200, 800])
        self.depth = r.randint(1, 5)
        if self.mode == 'pct':
            self.changes = sorted(r.randrange(self.horizon) for _ in range(self.depth))
        self._arm(0)

    def _arm(self, n):
        if self.mode == 'geo':
            self.next = n + 1 + int(self.rng.expovariate(1.0 / self.mean))
        elif self.mode == 'burst':
            self.next = n + (1 if self.rng.random() < 0.7 else int(self.rng.expovariate(1.0 / 60)) + 1)
        elif self.mode == 'fair':
            self.next = n + 1

    def _p(self, tid):
        p = self.prio.get(tid)
        if p is None:
            p = self.prio[tid] = self.rng.random() + 1
        return p

    def at_point(self, sim, n, cur):
        if self.mode == 'pct':
            if self.changes and n >= self.changes[0]:
                self.changes.pop(0)
                self.prio[cur.id] = -n
            best = None
            for t in sim.tasks:
                if t is cur or sim.is_runnable(t):
                    if best is None or self._p(t.id) > self._p(best.id):
                        best = t
            return best.id if best is not None else None
        if n < self.next:
            return None
        self._arm(n)
        run = [t.id for t in sim.tasks if t is not cur and sim.is_runnable(t)]
        if not run:
            return None
        if self.mode == 'fair':
            later = [i for i in run if i > cur.id]
            return later[0] if later else run[0]
        return self.rng.choice(run)

    def at_block(self, sim, n, runnable):
        if self.mode == 'pct':
            return max(runnable, key=lambda t: self._p(t.id)).id
        return self.rng.choice(runnable).id


_current = _threading.local()


def current_task():
    return getattr(_current, 'task', None)


class Scheduler:
    def __init__(self, strategy, budget=200000):
        self.strategy = strategy
        self.budget = budget
        self.tasks = []
        self.n = 0
        self.now = 0.0
        self.switches = []         # (n, from, to)
        self.deviations = {}
        self.running = None
        self.stopping = False
        self.on_switch = None      # callback(new task)
        self.hang = False
        self.overrun = False
        self._main = None
        self.events = []

    # ------------------------------------------------------------ tasks
    def adopt_main(self, name, proc):
        t = Task(self, 0, name, proc, None)
        t.thread = _threading.current_thread()
        self.tasks.append(t)
        self._main = t
        self.running = t
        _current.task = t
        if self.on_switch:
            self.on_switch(t)
        return t

    def new_task(self, name, proc, fn):
        t = Task(self, len(self.tasks), name, proc, fn)
        self.tasks.append(t)
        t.thread = _threading.Thread(target=self._body, args=(t,), daemon=True)
        t.thread.start()
        return t

    def _body(self, t):
        t.baton.acquire()
        _current.task = t
        try:
            if not self.stopping and t.state != 'dead':
                try:
                    t.result = t.fn()
                except SimExit:
                    pass
                except (SimHang, SimBudget):
                    pass
                except BaseException as e:      # outcome of the task
                    t.exc = e
        finally:
            sys.settrace(None)
            t.done = True
            if self.stopping or t.state == 'dead':
                t.state = 'dead' if t.state == 'dead' else 'done'
                self._returned.release()
            else:
                t.state = 'done'
                for f in t.onexit:
                    f()
                self._hand_over(t)

    # ------------------------------------------------------------ decisions
    def is_runnable(self, t):
        if t.state == 'ready':
            return True
        if t.state == 'blocked':
            if t.pred is not None and t.pred():
                return True
            if t.wake is not None and t.wake <= self.now:
                return True
        return False

    def _count(self):
        n = self.n
        self.n = n + 1
        if n > self.budget:
            self.overrun = True
        return n

    def point(self, tag=None):
        """The running task may be preempted here."""
        t = current_task()
        if t is None or t.sim is not self:
            return
        if self.stopping or t.state == 'dead':
            raise SimExit()
        t.npoints += 1
        if t.nopreempt:
            return
        n = self._count()
        if self.overrun:
            self._abort(t)
        choice = self.strategy.at_point(self, n, t)
        if choice is None or choice == t.id:
            return
        if choice >= len(self.tasks):
            return
        nt = self.tasks[choice]
        if not self.is_runnable(nt):
            return
        self.deviations[n] = choice
        self._switch(n, t, nt)

    def block(self, pred=None, timeout=None):
        """Wait until pred() holds or the (virtual) timeout elapses.  Returns whether pred held."""
        t = current_task()
        if t is None or t.sim is not self:
            raise HarnessError('block outside a simulated task')
        if self.stopping or t.state == 'dead':
            raise SimExit()
        if pred is not None and pred():
            self.point()
            if pred():
                return True
        t.pred = pred
        t.wake = None if timeout is None else self.now + timeout
        t.state = 'blocked'
        nt = self._pick(t)
        if nt is None:
            self._abort(t)
        elif nt is not t:
            self._switch(self.n - 1, t, nt)
        t.state = 'ready' if t.state == 'blocked' else t.state
        ok = pred is not None and pred()
        t.pred = None
        t.wake = None
        return ok

    def _pick(self, cur):
        """Next task when `cur` cannot continue by itself; None if nothing can ever run."""
        n = self._count()
        if self.overrun:
            return None
        while True:
            run = [x for x in self.tasks if self.is_runnable(x)]
            if run:
                break
            timers = [x.wake for x in self.tasks if x.state == 'blocked' and x.wake is not None]
            if not timers:
                self.hang = True
                return None
            self.now = max(self.now, min(timers))
        default = run[0]
        if len(run) == 1:
            return default
        choice = self.strategy.at_block(self, n, run)
        for x in run:
            if x.id == choice:
                if x is not default:
                    self.deviations[n] = x.id
                return x
        return default

    def _switch(self, n, cur, nt):
        self.switches.append((n, cur.id, nt.id))
        self.running = nt
        if self.on_switch:
            self.on_switch(nt)
        nt.baton.release()
        self._park(cur)

    def _park(self, cur):
        cur.baton.acquire()
        if self.stopping or cur.state == 'dead':
            raise SimExit()
        if cur is self._main and self._main_abort:
            self._main_abort = False
            cur.state = 'ready'
            cur.pred = cur.wake = None
            self.hang = False
            raise (SimBudget() if self.overrun else SimHang())

    def _hand_over(self, t):
        """A finished or killed task gives the baton away for good."""
        nt = self._pick(t)
        if nt is None:
            nt = self._main
            self._main_abort = True
        self.switches.append((self.n - 1, t.id, nt.id))
        self.running = nt
        if self.on_switch:
            self.on_switch(nt)
        nt.baton.release()

    _main_abort = False

    def _abort(self, t):
        """Hang or budget: the main task gets the news, everybody else waits for the end of the run."""
        if t is self._main:
            t.state = 'ready'
            t.pred = t.wake = None
            self.hang = False
            raise (SimBudget() if self.overrun else SimHang())
        self._main_abort = True
        self.switches.append((self.n - 1, t.id, self._main.id))
        self.running = self._main
        if self.on_switch:
            self.on_switch(self._main)
        self._main.baton.release()
        self._park(t)

    def kill(self, t):
        """SIGKILL: the task never runs again; nothing it would still have done happens."""
        if not t.alive():
            return
        t.state = 'dead'
        for f in t.onexit:
            f()
        if t is current_task():
            self._hand_over(t)
            t.baton.acquire()
            raise SimExit()

    def sleep(self, dt):
        self.block(None, timeout=max(0.0, dt))

    # ------------------------------------------------------------ end of run
    def shutdown(self):
        """Unwind every task that is still parked."""
        self.stopping = True
        self._returned = _allocate()
        self._returned.acquire()
        for t in self.tasks:
            if t is self._main or t.done:
                continue
            t.baton.release()
            if not self._returned.acquire(timeout=20):
                raise HarnessError('task %s did not unwind' % t.name)
        for t in self.tasks:
            if t is not self._main:
                t.thread.join(10)
        _current.task = None

    def schedule_hash(self):
        return hashlib.sha256(repr([(a, b) for _, a, b in self.switches]).encode()).hexdigest()[:16]
