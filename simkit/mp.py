"""Simulated multiprocessing / concurrent.futures / threading for the package under test.

Workers are tasks of simulated processes; arguments and results are pickled and resolved in the receiving image, exactly
as between real processes; shared memory is real memory behind an ndarray subclass whose element accesses are yield
points.  Outside a simulation every patched name behaves like the original.
"""
import sys
import os
import io
import ctypes
import pickle
import types
import threading as _threading
import queue as _queue
import multiprocessing
import multiprocessing.pool
import multiprocessing.context
import multiprocessing.sharedctypes
import multiprocessing.synchronize
import multiprocessing.shared_memory
import concurrent.futures
import numpy as np

from . import sim as S
from . import image as _image
from .sched import current_task, SimExit, SimHang, SimBudget, HarnessError, _allocate

_orig_frombuffer = np.frombuffer
_orig_ndarray = np.ndarray


def _from_pkg(depth=2):
    """Is the caller code of the package under test (or of a check)?"""
    f = sys._getframe(depth)
    n = f.f_globals.get('__name__', '')
    return n == _image.PKG or n.startswith(_image.PKG + '.') or n.startswith('checks')


# ------------------------------------------------------------------ shared memory
class ShmNdArray(np.ndarray):
    """View of simulated shared memory; every element access can be preempted, `x += y` is read, yield, write."""

    def __array_finalize__(self, obj):
        pass

    def __getitem__(self, key):
        s = S.here()
        if s is not None:
            s.sched.point('shm.get')
        return np.ndarray.__getitem__(self, key)

    def __setitem__(self, key, value):
        s = S.here()
        if s is None:
            return np.ndarray.__setitem__(self, key, value)
        if isinstance(value, ShmNdArray):
            value = np.array(np.ndarray.view(value, np.ndarray))
        s.sched.point('shm.set')
        base = np.ndarray.view(self, np.ndarray)
        s.count('shm.writes')
        tgt = base[key]
        if isinstance(tgt, np.ndarray) and tgt.ndim >= 1 and tgt.shape[0] > 1 and s.env.get('torn', True) \
                and tgt.base is not None and np.shares_memory(tgt, base):
            try:
                v = np.broadcast_to(np.asarray(value), tgt.shape)
            except ValueError:
                base[key] = value
                return
            h = tgt.shape[0] // 2
            tgt[:h] = v[:h]
            s.sched.point('shm.set2')
            tgt[h:] = v[h:]
        else:
            base[key] = value

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        s = S.here()

        def plain(x):
            if isinstance(x, ShmNdArray):
                x = np.ndarray.view(x, np.ndarray)
                return np.array(x) if out is not None else x
            return x
        ins = [plain(x) for x in inputs]
        if out is None:
            if s is not None and method == 'at' and isinstance(inputs[0], ShmNdArray):
                s.sched.point('shm.at')
                tgt = np.ndarray.view(inputs[0], np.ndarray)
                tmp = np.array(tgt)
                getattr(ufunc, 'at')(tmp, *ins[1:])
                s.sched.point('shm.at2')
                idx = ins[1]
                tgt[idx] = tmp[idx]
                return None
            return getattr(ufunc, method)(*ins, **kw)
        outs = out if isinstance(out, tuple) else (out,)
        if any(isinstance(o, ShmNdArray) for o in outs):
            if s is not None:
                s.sched.point('shm.rmw.read')
            res = getattr(ufunc, method)(*ins, **kw)
            ress = res if isinstance(res, tuple) else (res,)
            for o, r in zip(outs, ress):
                b = np.ndarray.view(o, np.ndarray) if isinstance(o, ShmNdArray) else o
                if s is not None:
                    s.sched.point('shm.rmw.write')
                    s.count('shm.writes')
                np.copyto(b, r, casting='same_kind')
            return outs[0] if len(outs) == 1 else outs
        return getattr(ufunc, method)(*ins, out=out, **kw)

    def __reduce__(self):
        return (np.array, (np.array(np.ndarray.view(self, np.ndarray)),))

    def __reduce_ex__(self, protocol):
        return self.__reduce__()

    def __deepcopy__(self, memo):
        return np.array(np.ndarray.view(self, np.ndarray))


def _wrap_if_shared(buf, res):
    if S.ACTIVE is None or isinstance(res, ShmNdArray):
        return res
    try:
        p = res.__array_interface__['data'][0]
    except Exception:
        return res
    for lo, hi in S.ACTIVE.shms:
        if lo <= p < hi:
            return res.view(ShmNdArray)
    return res


def _frombuffer(buffer, *a, **k):
    if isinstance(buffer, SimSynchronized):
        pass
    return _wrap_if_shared(buffer, _orig_frombuffer(buffer, *a, **k))


_orig_as_array = np.ctypeslib.as_array


def _as_array(obj, *a, **k):
    if isinstance(obj, SimSynchronized):
        obj = obj.get_obj()
    return _wrap_if_shared(obj, _orig_as_array(obj, *a, **k))


_orig_asarray = np.asarray
_orig_array = np.array


class _Shared:
    """Objects that live in memory shared between simulated processes (inheritance only)."""

    def _check_inherit(self):
        s = S.ACTIVE
        if s is None or not s.spawn_depth:
            raise RuntimeError(type(self).__name__ + ' objects should only be shared between processes through '
                               'inheritance')

    def __reduce__(self):
        self._check_inherit()
        return (_lookup_shared, (_register_shared(self),))

    def __reduce_ex__(self, protocol):
        return self.__reduce__()

    def __deepcopy__(self, memo):
        return self


_shared_by_id = {}


def _register_shared(o):
    _shared_by_id[id(o)] = o
    return id(o)


def _lookup_shared(i):
    return _shared_by_id[i]


_TYPES = multiprocessing.sharedctypes.typecode_to_type


def _alloc(typecode, size_or_init, scalar=False):
    s = S.ACTIVE
    f = s.faults.hit('shm.alloc')
    if f is not None:
        raise S.make_error(f['kind'])
    t = _TYPES.get(typecode, typecode)
    if scalar:
        o = t(*size_or_init)
    elif isinstance(size_or_init, (int, np.integer)):
        if size_or_init < 0:
            raise ValueError('Array length must be positive')
        o = (t * int(size_or_init))()
    else:
        o = (t * len(size_or_init))(*size_or_init)
    a = ctypes.addressof(o)
    s.shms.append((a, a + max(1, ctypes.sizeof(o))))
    s.env.setdefault('keep', []).append(o)
    s.count('shm.alloc')
    s.sched.point('shm.alloc')
    return o


class SimSynchronized(_Shared):
    def __init__(self, obj, lock):
        self._obj = obj
        self._lock = lock

    def get_obj(self):
        return self._obj

    def get_lock(self):
        return self._lock

    def acquire(self, *a, **k):
        return self._lock.acquire(*a, **k)

    def release(self):
        return self._lock.release()

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def __len__(self):
        return len(self._obj)

    def _pt(self):
        s = S.here()
        if s is not None:
            s.sched.point('shm.elem')

    def __getitem__(self, i):
        with self._lock:
            self._pt()
            return self._obj[i]

    def __setitem__(self, i, v):
        with self._lock:
            self._pt()
            self._obj[i] = v

    def __getslice__(self, a, b):
        return self[a:b]

    @property
    def value(self):
        with self._lock:
            self._pt()
            return self._obj.value

    @value.setter
    def value(self, v):
        with self._lock:
            self._pt()
            self._obj.value = v


def _mk_lock(lock):
    if lock in (True, None):
        return SimLock(True)
    if not hasattr(lock, 'acquire'):
        raise AttributeError("%r has no method 'acquire'" % lock)
    return lock


def Array(typecode_or_type, size_or_initializer, *, lock=True, ctx=None):
    o = _alloc(typecode_or_type, size_or_initializer)
    if lock is False:
        return RawHolder(o)
    return SimSynchronized(o, _mk_lock(lock))


def Value(typecode_or_type, *args, lock=True, ctx=None):
    o = _alloc(typecode_or_type, args, scalar=True)
    if lock is False:
        return RawHolder(o)
    return SimSynchronized(o, _mk_lock(lock))


def RawArray(typecode_or_type, size_or_initializer):
    return RawHolder(_alloc(typecode_or_type, size_or_initializer))


def RawValue(typecode_or_type, *args):
    return RawHolder(_alloc(typecode_or_type, args, scalar=True))


def RawHolder(o):
    """Raw ctypes objects are handed out as they are; they travel by identity through initargs."""
    return o


class SimSharedMemory(_Shared):
    def __init__(self, name=None, create=False, size=0, **kw):
        s = S.ACTIVE
        seg = s.env.setdefault('segments', {})
        if create:
            name = name or 'psm_sim%d' % len(seg)
            o = _alloc('c', int(size))
            seg[name] = o
        elif name not in seg:
            raise FileNotFoundError(2, 'No such file or directory', '/' + str(name))
        self._name = name
        self._o = seg[name]
        self.size = ctypes.sizeof(self._o)

    @property
    def name(self):
        return self._name

    @property
    def buf(self):
        return memoryview(self._o).cast('B')

    def close(self):
        pass

    def unlink(self):
        S.ACTIVE.env.get('segments', {}).pop(self._name, None)


# ------------------------------------------------------------------ locks and friends
def _ident():
    t = current_task()
    return t


class SimLock(_Shared):
    def __init__(self, recursive=False, shared=True):
        s = S.here()
        if s is not None and shared:
            f = s.faults.hit('sem.alloc')
            if f is not None:
                raise S.make_error(f['kind'])
        self.owner = None
        self.count = 0
        self.recursive = recursive
        self.shared = shared

    def acquire(self, block=True, timeout=None, blocking=None):
        s = S.here()
        if blocking is not None:
            block = blocking
        if timeout is not None and timeout < 0:
            timeout = None
        me = _ident()
        if s is None:
            self.count += 1
            return True
        if self.recursive and self.owner is me and self.count:
            self.count += 1
            return True
        s.sched.point('lock.acquire')
        if self.count == 0:
            self.owner = me
            self.count = 1
            return True
        if not block:
            return False
        s.count('lock.contended')
        while True:
            ok = s.sched.block(lambda: self.count == 0, timeout)
            if self.count == 0:
                self.owner = me
                self.count = 1
                return True
            if not ok and timeout is not None:
                return False

    def release(self):
        s = S.here()
        if s is None:
            self.count = max(0, self.count - 1)
            return
        if self.recursive and (self.owner is not _ident() or not self.count):
            raise AssertionError('attempt to release recursive lock not owned by thread') if self.shared else \
                RuntimeError('cannot release un-acquired lock')
        if not self.count:
            raise ValueError('semaphore or lock released too many times') if self.shared else \
                RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if not s.sched.stopping:
                s.sched.point('lock.release')

    def locked(self):
        return self.count > 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __repr__(self):
        return '<SimLock>'


class SimSemaphore(_Shared):
    def __init__(self, value=1, bounded=False):
        s = S.here()
        if s is not None:
            f = s.faults.hit('sem.alloc')
            if f is not None:
                raise S.make_error(f['kind'])
        self.value = value
        self.limit = value if bounded else None

    def acquire(self, block=True, timeout=None, blocking=None):
        s = S.here()
        if blocking is not None:
            block = blocking
        if s is None:
            return True
        s.sched.point('sem')
        if self.value == 0 and not block:
            return False
        while self.value == 0:
            if not s.sched.block(lambda: self.value > 0, timeout) and timeout is not None:
                return False
        self.value -= 1
        return True

    def release(self, n=1):
        if self.limit is not None and self.value + n > self.limit:
            raise ValueError('semaphore or lock released too many times')
        self.value += n
        s = S.here()
        if s is not None:
            s.sched.point('sem')

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimEvent(_Shared):
    def __init__(self):
        self.flag = False

    def is_set(self):
        return self.flag

    def set(self):
        self.flag = True
        s = S.here()
        if s is not None:
            s.sched.point('event')

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        s = S.here()
        if s is None:
            return self.flag
        s.sched.point('event')
        if not self.flag:
            s.sched.block(lambda: self.flag, timeout)
        return self.flag


class SimCondition(_Shared):
    def __init__(self, lock=None):
        self.lock = lock or SimLock(True)
        self.gen = 0
        self.waiters = []
        self.acquire = self.lock.acquire
        self.release = self.lock.release

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def wait(self, timeout=None):
        s = S.here()
        w = [False]
        self.waiters.append(w)
        n = self.lock.count
        own = self.lock.owner
        self.lock.count = 0
        self.lock.owner = None
        s.sched.block(lambda: w[0], timeout)
        if w in self.waiters:
            self.waiters.remove(w)
        self.lock.acquire()
        self.lock.count = n
        self.lock.owner = own
        return w[0]

    def wait_for(self, pred, timeout=None):
        r = pred()
        while not r:
            if not self.wait(timeout) and timeout is not None:
                return pred()
            r = pred()
        return r

    def notify(self, n=1):
        for w in self.waiters[:n]:
            w[0] = True
        del self.waiters[:n]
        S.ACTIVE.sched.point('cond')

    def notify_all(self):
        self.notify(len(self.waiters))


class SimBarrier(_Shared):
    def __init__(self, parties, action=None, timeout=None):
        self.parties = parties
        self.n = 0
        self.gen = 0

    def wait(self, timeout=None):
        s = S.here()
        g = self.gen
        i = self.n
        self.n += 1
        if self.n == self.parties:
            self.n = 0
            self.gen += 1
            s.sched.point('barrier')
        else:
            s.sched.block(lambda: self.gen != g, timeout)
        return i


class SimQueue(_Shared):
    def __init__(self, maxsize=0, pickled=True):
        self.q = []
        self.maxsize = maxsize
        self.pickled = pickled
        self.unfinished = 0

    def put(self, obj, block=True, timeout=None):
        s = S.here()
        if self.pickled:
            obj = dumps(obj)
        s.sched.point('q.put')
        if self.maxsize and len(self.q) >= self.maxsize:
            if not block:
                raise _queue.Full
            if not s.sched.block(lambda: len(self.q) < self.maxsize, timeout):
                raise _queue.Full
        self.q.append(obj)
        self.unfinished += 1

    def put_nowait(self, obj):
        self.put(obj, False)

    def get(self, block=True, timeout=None):
        s = S.here()
        s.sched.point('q.get')
        while not self.q:
            if not block:
                raise _queue.Empty
            if not s.sched.block(lambda: bool(self.q), timeout) and timeout is not None:
                raise _queue.Empty
        o = self.q.pop(0)
        return pickle.loads(o) if self.pickled else o

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return not self.q

    def qsize(self):
        return len(self.q)

    def full(self):
        return bool(self.maxsize) and len(self.q) >= self.maxsize

    def task_done(self):
        self.unfinished -= 1

    def join(self):
        S.here().sched.block(lambda: self.unfinished <= 0)

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


# ------------------------------------------------------------------ pickling between images
class _Pickler(pickle.Pickler):
    """Standard pickling plus ctypes/shared objects by identity while spawning."""

    def reducer_override(self, obj):
        if isinstance(obj, ctypes._SimpleCData) or isinstance(obj, ctypes.Array):
            s = S.ACTIVE
            a = ctypes.addressof(obj)
            if s is not None and any(lo <= a < hi for lo, hi in s.shms):
                if not s.spawn_depth:
                    raise RuntimeError('shared ctypes objects should only be shared between processes through '
                                       'inheritance')
                return (_lookup_shared, (_register_shared(obj),))
        return NotImplemented


def dumps(obj):
    b = io.BytesIO()
    _Pickler(b, protocol=pickle.HIGHEST_PROTOCOL).dump(obj)
    return b.getvalue()


loads = pickle.loads


def transfer_spawn(obj, method):
    """Arguments given at process creation: pickled (spawn) or copied memory (fork)."""
    s = S.ACTIVE
    s.spawn_depth += 1
    try:
        return ('p', dumps(obj))
    except (SimExit, HarnessError):
        raise
    except Exception:
        if method != 'fork':
            raise
        return ('r', obj)
    finally:
        s.spawn_depth -= 1


def receive(x):
    return pickle.loads(x[1]) if x[0] == 'p' else x[1]


def snapshot_globals(proc):
    """What a fork()ed child inherits in module globals besides code."""
    out = []
    img = proc.image
    for mname, mod in img.mods.items():
        for k, v in list(mod.__dict__.items()):
            if k.startswith('__') or isinstance(v, (types.ModuleType, types.FunctionType, types.BuiltinFunctionType,
                                                    type)):
                continue
            if not isinstance(v, (_Shared, np.ndarray, list, dict, tuple, set, str, bytes, int, float, complex,
                                  type(None), ctypes.Array)) and \
                    type(v).__module__.split('.')[0] != _image.PKG and not isinstance(v, types.MethodType):
                continue
            try:
                out.append((mname, k, transfer_spawn(v, 'fork')))
            except Exception:
                pass
    return out


def restore_globals(proc, snap):
    for mname, k, x in snap:
        m = proc.image.mods.get(mname)
        if m is None:
            continue
        try:
            m.__dict__[k] = receive(x)
        except (AttributeError, ImportError):
            pass


# ------------------------------------------------------------------ processes
def start_process(s, name, body, method, daemon):
    """Create a simulated child process whose main task runs body(); returns (proc, task)."""
    f = s.faults.hit('proc.start')
    if f is not None:
        raise S.make_error(f['kind'])
    parent = current_task().proc
    p = s.new_proc(name, parent, method)
    p.daemon = daemon
    snap = snapshot_globals(parent) if method == 'fork' else None
    s.count('proc.start')

    def run():
        img = _image.Image()
        p.image = img
        s.load_image(img, None if snap is None else (lambda: restore_globals(p, snap)))
        return body()
    t = s.sched.new_task(name, p, s._traced(run))
    p.tasks.append(t)
    s.sched.point('proc.start')
    return p, t


class WorkerKilled(Exception):
    pass


def _worker_point(s):
    """A place where a worker process may be killed (SIGKILL, OOM)."""
    f = s.faults.hit('worker.kill')
    if f is not None:
        s.kill_proc(current_task().proc)


class _Chunk:
    __slots__ = ('job', 'idx', 'data')

    def __init__(self, job, idx, data):
        self.job = job
        self.idx = idx
        self.data = data


class _State:
    """Shared state of a pool (workers refer to this, never to the Pool object)."""

    def __init__(self):
        self.queue = []
        self.closed = False
        self.terminated = False
        self.workers = []
        self.threads = False
        self.n = 0
        self.callbacks = []
        self.cb_task = None


class _RemoteTraceback(Exception):
    pass


class SimAsyncResult:
    def __init__(self, sim, st, n, callback=None, error_callback=None, single=False):
        self.sim = sim
        self.st = st
        self.left = n
        self.parts = {}
        self.error = None
        self.single = single
        self.callback = callback
        self.error_callback = error_callback
        self.order = []
        self.handled = n == 0

    def _set(self, idx, ok, val):
        if idx in self.parts:
            return
        self.parts[idx] = (ok, val)
        self.order.append(idx)
        self.left -= 1
        if not ok and self.error is None:
            self.error = val
        if self.left == 0:
            if self.callback is not None or self.error_callback is not None:
                self.st.callbacks.append(self)
            else:
                self.handled = True

    def ready(self):
        return self.left == 0

    def successful(self):
        if not self.ready():
            raise ValueError('{0!r} not ready'.format(self))
        return self.error is None

    def wait(self, timeout=None):
        s = S.here()
        s.sched.point('result.wait')
        if not (self.left == 0 and self.handled):
            s.sched.block(lambda: self.left == 0 and self.handled, timeout)

    def _value(self):
        if self.error is not None:
            raise pickle.loads(self.error)
        out = []
        for i in sorted(self.parts):
            out.extend(pickle.loads(self.parts[i][1]))
        return out[0] if self.single else out

    def get(self, timeout=None):
        self.wait(timeout)
        if self.left:
            raise multiprocessing.TimeoutError
        return self._value()


def mapstar(args):
    return list(map(*args))


def _run_chunk(mode, func, chunk):
    if mode == 'map':
        return [func(x) for x in chunk]
    if mode == 'star':
        return [func(*x) for x in chunk]
    if mode == 'call':
        a, k = chunk
        return [func(*a, **k)]
    raise HarnessError(mode)


class SimPool:
    _threads = False

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None,
                 method=None):
        s = S.here()
        if s is None:
            raise HarnessError('SimPool outside a simulation')
        self._sim = s
        self._method = method or s.start_method
        st = self._st = _State()
        st.threads = self._threads
        if processes is None:
            processes = s.cpu_count
        if processes < 1:
            raise ValueError('Number of processes must be at least 1')
        if maxtasksperchild is not None:
            if not isinstance(maxtasksperchild, int) or maxtasksperchild <= 0:
                raise ValueError('maxtasksperchild must be a positive int or None')
        if initializer is not None and not callable(initializer):
            raise TypeError('initializer must be a callable')
        f = s.faults.hit('pool.alloc')
        if f is not None:
            raise S.make_error(f['kind'])
        st.n = processes
        st.max = maxtasksperchild
        s.pools.append(st)
        s.count('pools')
        if self._threads:
            init = ('r', (initializer, tuple(initargs)))
        else:
            init = transfer_spawn((initializer, tuple(initargs)), self._method)
        st.init = init
        st.method = self._method
        try:
            for i in range(processes):
                _start_worker(s, st)
        except BaseException:
            _terminate(s, st)
            raise

    # -- submitting
    def _check(self):
        if self._st.closed or self._st.terminated:
            raise ValueError('Pool not running')

    def _submit(self, mode, func, items, chunksize, callback=None, error_callback=None, single=False):
        self._check()
        s = self._sim
        st = self._st
        if mode == 'call':
            chunks = [items]
        else:
            items = list(items)
            if chunksize is None:
                chunksize, extra = divmod(len(items), st.n * 4)
                if extra:
                    chunksize += 1
            if len(items) == 0:
                chunksize = 0
            if items and chunksize < 1:
                raise ValueError('Chunksize must be 1+, not {0:n}'.format(chunksize))
            chunks = [items[i:i + chunksize] for i in range(0, len(items), chunksize)] if items else []
        r = SimAsyncResult(s, st, len(chunks), callback, error_callback, single)
        self._pump_callbacks(callback or error_callback)
        for i, c in enumerate(chunks):
            if self._threads:
                data = (mode, func, c)
            else:
                try:
                    data = dumps((mode, func, c))
                except Exception as e:
                    r._set(i, False, _dump_exc(e))
                    continue
            st.queue.append(_Chunk(r, i, data))
            s.count('chunks')
        s.sched.point('pool.submit')
        return r

    def _pump_callbacks(self, needed):
        st = self._st
        s = self._sim
        if not needed or st.cb_task is not None:
            return

        def run():
            while True:
                s.sched.block(lambda: bool(st.callbacks) or st.terminated)
                while st.callbacks:
                    r = st.callbacks.pop(0)
                    try:
                        if r.error is None:
                            if r.callback is not None:
                                r.callback(r._value())
                        elif r.error_callback is not None:
                            r.error_callback(pickle.loads(r.error))
                    finally:
                        r.handled = True
                if st.terminated:
                    return
        st.cb_task = s.task('pool-results', run)

    def map(self, func, iterable, chunksize=None):
        return self._submit('map', func, iterable, chunksize).get()

    def starmap(self, func, iterable, chunksize=None):
        return self._submit('star', func, iterable, chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._submit('map', func, iterable, chunksize, callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._submit('star', func, iterable, chunksize, callback, error_callback)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return self._submit('call', func, (tuple(args), dict(kwds)), None, callback, error_callback, single=True)

    def imap(self, func, iterable, chunksize=1):
        r = self._submit('map', func, iterable, chunksize)
        return self._iter(r, True)

    def imap_unordered(self, func, iterable, chunksize=1):
        r = self._submit('map', func, iterable, chunksize)
        return self._iter(r, False)

    def _iter(self, r, ordered):
        total = r.left + len(r.parts)
        s = self._sim

        def gen():
            for i in range(total):
                if ordered:
                    s.sched.block(lambda: i in r.parts)
                    key = i
                else:
                    s.sched.block(lambda: len(r.order) > i)
                    key = r.order[i]
                ok, val = r.parts[key]
                if not ok:
                    raise pickle.loads(val)
                for v in pickle.loads(val):
                    yield v
        return _PoolIter(gen())

    # -- life cycle
    def close(self):
        self._st.closed = True

    def terminate(self):
        _terminate(self._sim, self._st)

    def join(self):
        st = self._st
        if not (st.closed or st.terminated):
            raise ValueError('Pool is still running')
        s = self._sim
        s.sched.block(lambda: all(not t.alive() for p, t in st.workers))
        st.terminated = True

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()

    def __del__(self):
        try:
            s = self._sim
            if S.here() is s and not s.sched.stopping:
                _terminate(s, self._st)
        except Exception:
            pass

    def __reduce__(self):
        raise NotImplementedError('pool objects cannot be passed between processes or pickled')


class _PoolIter:
    def __init__(self, g):
        self.g = g

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.g)

    def next(self, timeout=None):
        return next(self.g)


class SimThreadPool(SimPool):
    _threads = True

    def __init__(self, processes=None, initializer=None, initargs=()):
        SimPool.__init__(self, processes, initializer, initargs)


def _dump_exc(e):
    try:
        b = pickle.dumps(e)
        pickle.loads(b)
        return b
    except Exception:
        return pickle.dumps(RuntimeError('%s: %s' % (type(e).__name__, e)))


def _terminate(s, st):
    st.terminated = True
    st.closed = True
    st.queue.clear()
    for p, t in list(st.workers):
        if t.alive():
            if st.threads:
                continue
            s.count('pool.terminated_live')
            s.kill_proc(p)


def _start_worker(s, st):
    w = len(st.workers)

    def body():
        me = current_task()
        initializer, initargs = receive(st.init)
        if initializer is not None:
            initializer(*initargs)
        done = 0
        while True:
            if not st.threads:
                _worker_point(s)
            if not st.queue:
                if st.closed:
                    return
                s.sched.block(lambda: bool(st.queue) or st.closed)
                continue
            s.sched.point('task.get')
            if not st.queue:
                continue
            c = st.queue.pop(0)
            if st.threads:
                mode, func, chunk = c.data
            else:
                _worker_point(s)
                s.sched.point('task.load')
                try:
                    mode, func, chunk = pickle.loads(c.data)
                except Exception as e:
                    c.job._set(c.idx, False, _dump_exc(e))
                    continue
            try:
                f = s.faults.hit('task')
                if f is not None:
                    raise S.make_error(f['kind'])
                val = _run_chunk(mode, func, chunk)
                ok = True
                data = val if False else dumps(val) if not st.threads else _ThreadVal.dump(val)
            except SimExit:
                raise
            except Exception as e:
                ok = False
                data = _dump_exc(e)
            if not st.threads:
                _worker_point(s)
            s.sched.point('task.put')
            c.job._set(c.idx, ok, data)
            s.count('tasks.done')
            done += 1
            if st.max and done >= st.max:
                return

    if st.threads:
        t = s.task('pool-thread-%d' % w, body)
        st.workers.append((t.proc, t))
    else:
        def guarded():
            return body()
        p, t = start_process(s, 'worker-%d' % w, guarded, st.method, True)
        st.workers.append((p, t))
        p.extra.setdefault('onexit', [])

        def replaced():
            if st.terminated or s.sched.stopping:
                return
            if st.closed and not st.queue:
                return
            if len(st.workers) > st.n + 40:
                return
            # the pool's maintenance thread replaces exited workers
            st.respawn = getattr(st, 'respawn', 0) + 1
            _maintain(s, st)
        t.onexit.append(replaced)


def _maintain(s, st):
    """Replace dead workers (done by a helper thread in the real pool)."""
    if getattr(st, 'maint', None) is not None and st.maint.alive():
        return

    def run():
        while getattr(st, 'respawn', 0) > 0 and not st.terminated:
            st.respawn -= 1
            try:
                _start_worker(s, st)
            except (SimExit, HarnessError):
                raise
            except BaseException:
                return      # real pools lose their maintenance thread here
    parent = st.workers[0][0].parent if not st.threads else current_task().proc
    if parent.dead:
        return
    st.maint = s.sched.new_task('pool-maintenance', parent, run)
    parent.tasks.append(st.maint)


class _ThreadVal:
    """Results of thread pools are passed by reference."""
    store = {}
    n = 0

    @classmethod
    def dump(cls, val):
        cls.n += 1
        key = cls.n
        cls.store[key] = val
        return pickle.dumps(_Ref(key))


class _Ref:
    def __init__(self, key):
        self.key = key

    def __iter__(self):
        return iter(_ThreadVal.store[self.key])


class SimProcess(object):
    _method = None
    daemon = False

    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        self._target = target
        self._args = tuple(args)
        self._kwargs = dict(kwargs)
        self.name = name or 'Process'
        if daemon is not None:
            self.daemon = daemon
        self._proc = self._task = None
        self._exit = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        s = S.here()
        method = self._method or s.start_method
        if type(self) is SimProcess:
            data = transfer_spawn((self._target, self._args, self._kwargs), method)

            def body():
                tgt, a, k = receive(data)
                _worker_point(s)
                if tgt:
                    tgt(*a, **k)
        else:
            def body():
                _worker_point(s)
                self.run()
        self._proc, self._task = start_process(s, self.name, body, method, bool(self.daemon))
        s.env.setdefault('procs', []).append(self)

    def join(self, timeout=None):
        s = S.here()
        s.sched.point('proc.join')
        if self._task.alive():
            s.sched.block(lambda: not self._task.alive(), timeout)

    def is_alive(self):
        return self._task is not None and self._task.alive()

    def terminate(self):
        if self._task is not None and self._task.alive():
            S.here().kill_proc(self._proc)

    kill = terminate

    def close(self):
        pass

    @property
    def exitcode(self):
        t = self._task
        if t is None or t.alive():
            return None
        if t.state == 'dead':
            return -9
        return 0 if t.exc is None else 1

    @property
    def pid(self):
        return self._proc.pid if self._proc else None

    ident = pid


class SimThread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        self.name = name or 'Thread'
        self.daemon = bool(daemon)
        self._task = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        s = S.here()
        f = s.faults.hit('thread.start')
        if f is not None:
            raise RuntimeError("can't start new thread")
        self._task = s.task(self.name, self.run)

    def join(self, timeout=None):
        s = S.here()
        if self._task.alive():
            s.sched.block(lambda: not self._task.alive(), timeout)

    def is_alive(self):
        return self._task is not None and self._task.alive()


# ------------------------------------------------------------------ concurrent.futures
class SimFuture:
    def __init__(self, r):
        self._r = r
        self._cbs = []

    def result(self, timeout=None):
        try:
            return self._r.get(timeout)
        except multiprocessing.TimeoutError:
            raise concurrent.futures.TimeoutError()

    def exception(self, timeout=None):
        self._r.wait(timeout)
        return pickle.loads(self._r.error) if self._r.error is not None else None

    def done(self):
        return self._r.ready()

    def cancel(self):
        return False

    def cancelled(self):
        return False

    def running(self):
        return not self._r.ready()

    def add_done_callback(self, fn):
        self._r.wait()
        fn(self)


class SimExecutor:
    _cls = SimPool

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), thread_name_prefix='',
                 **kw):
        s = S.here()
        if max_workers is None:
            max_workers = s.cpu_count
        if max_workers <= 0:
            raise ValueError('max_workers must be greater than 0')
        if mp_context is not None and self._cls is SimPool:
            self._pool = SimPool(max_workers, initializer, initargs, method=mp_context._method or None)
        else:
            self._pool = self._cls(max_workers, initializer, initargs)

    def submit(self, fn, /, *args, **kwargs):
        return SimFuture(self._pool.apply_async(fn, args, kwargs))

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        items = list(zip(*iterables))
        r = self._pool._submit('star', fn, items, chunksize)

        def gen():
            for v in r.get(timeout):
                yield v
        return gen()

    def shutdown(self, wait=True, cancel_futures=False):
        self._pool.close()
        if wait:
            self._pool.join()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown(True)


class SimThreadExecutor(SimExecutor):
    _cls = SimThreadPool

    def __init__(self, max_workers=None, thread_name_prefix='', initializer=None, initargs=()):
        s = S.here()
        SimExecutor.__init__(self, max_workers or min(32, s.cpu_count + 4), None, initializer, initargs)


# ------------------------------------------------------------------ context objects
class SimContext:
    def __init__(self, method=None):
        self._method = method

    def Pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        return SimPool(processes, initializer, initargs, maxtasksperchild, method=self._method)

    def Process(self, *a, **k):
        p = SimProcess(*a, **k)
        p._method = self._method
        return p

    Array = staticmethod(Array)
    Value = staticmethod(Value)
    RawArray = staticmethod(RawArray)
    RawValue = staticmethod(RawValue)

    def Lock(self):
        return SimLock(False)

    def RLock(self):
        return SimLock(True)

    def Semaphore(self, value=1):
        return SimSemaphore(value)

    def BoundedSemaphore(self, value=1):
        return SimSemaphore(value, True)

    def Event(self):
        return SimEvent()

    def Condition(self, lock=None):
        return SimCondition(lock)

    def Barrier(self, *a, **k):
        return SimBarrier(*a, **k)

    def Queue(self, maxsize=0):
        return SimQueue(maxsize)

    def JoinableQueue(self, maxsize=0):
        return SimQueue(maxsize)

    def SimpleQueue(self):
        return SimQueue()

    def cpu_count(self):
        return S.here().cpu_count

    def get_context(self, method=None):
        return SimContext(method or self._method)

    def get_start_method(self, allow_none=False):
        return self._method or S.here().start_method

    def set_start_method(self, method, force=False):
        S.here().start_method = method

    def get_all_start_methods(self):
        return ['fork', 'spawn', 'forkserver']

    TimeoutError = multiprocessing.TimeoutError


def _dispatch(original, simfn, pkg_only=False):
    """Callable that is simulated inside a simulation and original outside."""
    if isinstance(original, type):
        base = original
    else:
        base = None

    def f(*a, **k):
        if S.here() is not None and (not pkg_only or _from_pkg(2)):
            return simfn(*a, **k)
        return original(*a, **k)
    f.__name__ = getattr(original, '__name__', 'f')
    f.__wrapped_original__ = original
    return f


def install():
    mp = multiprocessing
    ctx = SimContext(None)
    names = ['Pool', 'Process', 'Array', 'Value', 'RawArray', 'RawValue', 'Lock', 'RLock', 'Semaphore',
             'BoundedSemaphore', 'Event', 'Condition', 'Barrier', 'Queue', 'JoinableQueue', 'SimpleQueue', 'cpu_count',
             'get_context', 'get_start_method', 'set_start_method', 'get_all_start_methods']
    for n in names:
        setattr(mp, n, _dispatch(getattr(mp, n), getattr(ctx, n)))
    mp.active_children = _dispatch(mp.active_children, lambda: [])
    mp.pool.Pool = _dispatch(mp.pool.Pool, SimPool)
    mp.pool.ThreadPool = _dispatch(mp.pool.ThreadPool, SimThreadPool)
    mp.sharedctypes.Array = mp.Array
    mp.sharedctypes.RawArray = mp.RawArray
    mp.sharedctypes.Value = mp.Value
    mp.sharedctypes.RawValue = mp.RawValue
    mp.shared_memory.SharedMemory = _dispatch(mp.shared_memory.SharedMemory, SimSharedMemory)
    concurrent.futures.ProcessPoolExecutor = _dispatch(concurrent.futures.ProcessPoolExecutor, SimExecutor)
    concurrent.futures.ThreadPoolExecutor = _dispatch(concurrent.futures.ThreadPoolExecutor, SimThreadExecutor)
    concurrent.futures.as_completed = _dispatch(concurrent.futures.as_completed, _as_completed)
    concurrent.futures.wait = _dispatch(concurrent.futures.wait, _wait)
    os.cpu_count = _dispatch(os.cpu_count, lambda: S.here().cpu_count)
    os.sched_getaffinity = _dispatch(os.sched_getaffinity, lambda pid=0: set(range(S.here().cpu_count)))
    for n, mk in (('Thread', SimThread), ('Lock', lambda: SimLock(False, False)),
                  ('RLock', lambda: SimLock(True, False)), ('Semaphore', SimSemaphore), ('Event', SimEvent),
                  ('BoundedSemaphore', lambda v=1: SimSemaphore(v, True)), ('Condition', SimCondition),
                  ('Barrier', SimBarrier)):
        setattr(_threading, n, _PkgDispatch(getattr(_threading, n), mk) if not isinstance(
            getattr(_threading, n), type) else _pkg_class(getattr(_threading, n), mk))
    np.frombuffer = _frombuffer
    np.ctypeslib.as_array = _as_array


def _PkgDispatch(original, mk):
    def f(*a, **k):
        if S.here() is not None and _from_pkg(2):
            return mk(*a, **k)
        return original(*a, **k)
    f.__name__ = getattr(original, '__name__', 'f')
    return f


def _pkg_class(original, mk):
    """Classes stay classes for everybody else (subclassing, isinstance)."""
    class Meta(type(original)):
        def __call__(cls, *a, **k):
            if cls is patched:
                if S.here() is not None and _from_pkg(2):
                    return mk(*a, **k)
                return original(*a, **k)
            return type(original).__call__(cls, *a, **k)

        def __instancecheck__(cls, o):
            return isinstance(o, original) or type.__instancecheck__(cls, o)
    patched = Meta(original.__name__, (original,), {})
    return patched


def _as_completed(fs, timeout=None):
    fs = list(fs)
    s = S.here()
    while fs:
        s.sched.block(lambda: any(f.done() for f in fs), timeout)
        for f in list(fs):
            if f.done():
                fs.remove(f)
                yield f
                break


def _wait(fs, timeout=None, return_when='ALL_COMPLETED'):
    fs = list(fs)
    s = S.here()
    s.sched.block(lambda: all(f.done() for f in fs), timeout)
    return {f for f in fs if f.done()}, {f for f in fs if not f.done()}


def live_workers(s):
    """Worker processes and threads still alive after everything that can finish by itself has finished."""
    s.sched.sleep(60.0)
    return [t.name for t in s.sched.tasks if t.alive() and t is not current_task() and
            t.name not in ('pool-maintenance', 'pool-results')]
