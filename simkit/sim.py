"""One simulated run: scheduler + processes (images) + fault plan + global switch-over."""
import sys
import gc
import hashlib
import random

from . import sched
from .sched import Scheduler, current_task, SimExit, SimHang, SimBudget, HarnessError
from . import image as _image

ACTIVE = None        # the Sim of the run in progress (one at a time per interpreter)
FINDER = None        # image finder


def active():
    return ACTIVE


def here():
    """The active simulation if the calling thread is one of its tasks, else None."""
    s = ACTIVE
    if s is None:
        return None
    t = current_task()
    if t is None or t.sim is not s.sched:
        return None
    return s


class Proc:
    def __init__(self, sim, pid, name, parent, method):
        self.sim = sim
        self.pid = pid
        self.name = name
        self.parent = parent
        self.method = method
        self.image = None
        self.tasks = []
        self.children = []
        self.daemon = False
        self.dead = False
        self.extra = {}


class InjectedFault(Exception):
    pass


class Faults:
    """Concrete fault plan: entries {site, nth, kind, ...}; nth counts hits of that site from 0."""

    def __init__(self, plan):
        self.plan = [dict(p) for p in (plan or [])]
        self.hits = {}
        self.fired = []
        self.enabled = True

    def hit(self, site):
        if not self.enabled:
            return None
        n = self.hits.get(site, 0)
        self.hits[site] = n + 1
        for p in self.plan:
            if p['site'] == site and p['nth'] == n:
                self.fired.append(dict(p))
                return p
        return None


class Sim:
    def __init__(self, strategy, faults=None, cpu_count=4, start_method='fork', budget=200000, trace=None,
                 seed=0):
        self.sched = Scheduler(strategy, budget=budget)
        self.faults = Faults(faults)
        self.procs = []
        self.cpu_count = cpu_count
        self.start_method = start_method
        self.trace = trace            # None | 'line' | 'opcode'
        self.rng = random.Random(seed)
        self.shms = []
        self.stats = {}
        self.log = []
        self.events = []
        self.hooks = {}
        self.env = {}
        self.pools = []
        self.spawn_depth = 0
        self.next_lock = 0
        self.fs = None
        self.line_filter = None
        self.frozen = False           # file system effects ignored (after the oracle has looked)

    # ----------------------------------------------------------------- life cycle
    def __enter__(self):
        global ACTIVE
        if ACTIVE is not None:
            raise HarnessError('nested simulation')
        ACTIVE = self
        self._saved_mods = _image.pkg_modules()
        gc.collect()
        gc.disable()
        p = self.new_proc('main', None, 'spawn')
        self.sched.on_switch = self._on_switch
        self._keep_tracing(self.trace is not None)
        self.main = self.sched.adopt_main('main', p)
        p.tasks.append(self.main)
        return self

    def __exit__(self, *a):
        global ACTIVE
        self.frozen = True
        try:
            sys.settrace(None)
            self.sched.shutdown()
        finally:
            self._keep_tracing(False)
            ACTIVE = None
            sched._current.task = None
            _image.switch_to(self._saved_mods)
            gc.enable()
        return False

    _keeper = None

    def _keep_tracing(self, on):
        """CPython 3.12 re-instruments code that other threads are executing whenever the first thread starts or the last
        one stops tracing, and crashes on it now and then: one parked thread keeps tracing on during the run."""
        if on:
            go, up = sched._allocate(), sched._allocate()
            go.acquire()
            up.acquire()

            def park():
                sys.settrace(lambda *a: None)
                up.release()
                go.acquire()
                sys.settrace(None)
            t = sched._threading.Thread(target=park, daemon=True)
            t.start()
            up.acquire()
            self._keeper = (go, t)
        elif self._keeper is not None:
            go, t = self._keeper
            self._keeper = None
            go.release()
            t.join(10)

    def _on_switch(self, task):
        img = task.proc.image
        if img is not None:
            _image.switch_to(img.mods)
        else:
            _image.switch_to({})

    # ----------------------------------------------------------------- processes
    def new_proc(self, name, parent, method):
        p = Proc(self, 1000 + len(self.procs), name, parent, method)
        self.procs.append(p)
        if parent is not None:
            parent.children.append(p)
        return p

    def load_main(self):
        """Fresh image for the current process."""
        img = _image.Image()
        current_task().proc.image = img
        self.load_image(img)
        return img.spa

    def load_image(self, img, snap=None):
        """Import without preemption or faults (import-time faults are the subject of C17 only)."""
        t = current_task()
        t.nopreempt += 1
        on = self.faults.enabled
        self.faults.enabled = False
        try:
            img.load()
            if snap is not None:
                snap()
        finally:
            self.faults.enabled = on
            t.nopreempt -= 1

    def spa(self):
        t = current_task()
        return t.proc.image.spa

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def kill_proc(self, p):
        """Crash of a whole simulated process and its descendants."""
        if p.dead:
            return
        p.dead = True
        for c in p.children:
            if c.daemon:
                self.kill_proc(c)
        me = current_task()
        last = None
        for t in list(p.tasks):
            if t is me:
                last = t
                continue
            self.sched.kill(t)
        for f in p.extra.get('onexit', []):
            f()
        if last is not None:
            self.sched.kill(last)

    def task(self, name, fn, proc=None):
        proc = proc or current_task().proc
        t = self.sched.new_task(name, proc, self._traced(fn))
        proc.tasks.append(t)
        self.sched.point('task.start')
        return t

    def _traced(self, fn):
        if self.trace is None:
            return fn

        def run():
            sys.settrace(self.tracer())
            try:
                return fn()
            finally:
                sys.settrace(None)
        return run

    def tracer(self):
        sim = self
        prefix = FINDER.sources.dir
        op = self.trace == 'opcode'
        sc = self.sched

        def local(frame, event, arg):
            if event == 'line' or event == 'opcode':
                if not op:         # (CPython 3.12 crashes on exceptions raised at bytecode events)
                    sim.on_line(frame)
                if not sc.stopping:
                    sc.point('line')
            return local

        def glob(frame, event, arg):
            if event == 'call' and frame.f_code.co_filename.startswith(prefix):
                if sim.line_filter is not None and not sim.line_filter(frame):
                    return None
                if op:
                    frame.f_trace_opcodes = True
                return local
            return None
        return glob

    line_plan = None

    def on_line(self, frame):
        pl = self.line_plan
        if pl is not None and self.faults.enabled and pl(current_task(), frame):
            f = self.faults.hit('line')
            if f is not None:
                raise make_error(f['kind'])

    # ----------------------------------------------------------------- waiting
    def join(self, tasks):
        self.sched.block(lambda: all(not t.alive() for t in tasks))

    def spawn_process(self, name, fn, method='spawn'):
        """A separate OS process of the simulated machine running fn(spa) on a fresh image."""
        parent = current_task().proc
        p = self.new_proc(name, None, method)

        def body():
            img = _image.Image()
            p.image = img
            self.load_image(img)
            return fn(img.spa)
        t = self.sched.new_task(name, p, self._traced(body))
        p.tasks.append(t)
        return p, t


ERRORS = {
    'MemoryError': lambda: MemoryError('simulated: out of memory'),
    'EIO': lambda: OSError(5, 'Input/output error (simulated)'),
    'ENOSPC': lambda: OSError(28, 'No space left on device (simulated)'),
    'EMFILE': lambda: OSError(24, 'Too many open files (simulated)'),
    'EACCES': lambda: PermissionError(13, 'Permission denied (simulated)'),
    'ENOENT': lambda: FileNotFoundError(2, 'No such file or directory (simulated)'),
    'EAGAIN': lambda: BlockingIOError(11, 'Resource temporarily unavailable (simulated)'),
    'ENOMEM': lambda: OSError(12, 'Cannot allocate memory (simulated)'),
    'EROFS': lambda: OSError(30, 'Read-only file system (simulated)'),
    'KeyboardInterrupt': lambda: KeyboardInterrupt('simulated'),
    'RuntimeError': lambda: RuntimeError('simulated failure'),
    'FloatingPointError': lambda: FloatingPointError('simulated failure'),
}


def make_error(kind):
    return ERRORS[kind]()


def run_hash(obj):
    return hashlib.sha256(repr(obj).encode()).hexdigest()[:16]
