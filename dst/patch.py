"""Replaces the standard library's concurrency and clock with simulated versions.

`install()` must run before pvtrace is imported.  Every replacement looks at the
calling thread: inside a simulation it is simulated, elsewhere it is the real
thing, so import style (module attribute or from-import) does not matter.
"""
import builtins
import collections
import concurrent.futures
import ctypes
import io
import itertools
import multiprocessing
import multiprocessing.context
import multiprocessing.managers
import multiprocessing.pool
import multiprocessing.queues
import os
import pickle
import queue as _queue
import signal
import struct
import sys
import threading
import time as _time
import traceback
import types

from . import sched

REAL = types.SimpleNamespace()
CHILD = None  # set in a simulated worker process


def world():
    """The simulation as seen from the calling code: a Sim, a Child, or None."""
    if CHILD is not None:
        return CHILD
    s, t = sched.current()
    return s


# ---------------------------------------------------------------------------
# clocks

def _now():
    w = world()
    if w is None:
        return None
    return w.time()


def _clock(name, real, scale=None):
    def f():
        w = world()
        if w is None:
            return real()
        v = w.time()
        return int(v * 1e9) if scale else v
    f.__name__ = name
    return f


def _sleep(dt):
    w = world()
    if w is None:
        return REAL.sleep(dt)
    return w.sleep(dt)


def _sim_time(self):
    return self.now


sched.Sim.time = _sim_time


# ---------------------------------------------------------------------------
# synchronisation objects.  S* are the simulated ones.

class SLock:
    _reentrant = False

    def __init__(self):
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        w = world()
        if w is None or CHILD is not None:
            self._n += 1
            return True
        s, t = sched.current()
        if self._reentrant and self._owner is t:
            self._n += 1
            return True
        if not blocking:
            s.point("lock")
            ok = self._owner is None
        else:
            ok = s.wait(lambda: self._owner is None, None if timeout is None or timeout < 0 else timeout, "lock")
        if ok:
            self._owner = t
            self._n = 1
        return ok

    def release(self):
        if self._n <= 0:
            raise RuntimeError("release unlocked lock")
        self._n -= 1
        if self._n == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner is sched.current()[1]


class SRLock(SLock):
    _reentrant = True


class SCondition:
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else SRLock()
        self.acquire = self._lock.acquire
        self.release = self._lock.release
        self._waiters = []

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        cell = []
        self._waiters.append(cell)
        n = self._lock._n
        self._lock._n = 0
        self._lock._owner = None
        s, t = sched.current()
        try:
            got = s.wait(lambda: bool(cell), timeout, "condition")
        finally:
            if cell in self._waiters:
                self._waiters.remove(cell)
            self._lock.acquire()
            self._lock._n = n
        return got

    def wait_for(self, pred, timeout=None):
        end = None if timeout is None else world().time() + timeout
        r = pred()
        while not r:
            left = None
            if end is not None:
                left = end - world().time()
                if left <= 0:
                    break
            self.wait(left)
            r = pred()
        return r

    def notify(self, n=1):
        for c in self._waiters[:n]:
            c.append(1)
        del self._waiters[:n]

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class SEvent:
    def __init__(self):
        self._flag = False

    def is_set(self):
        w = world()
        if w is not None:
            w.point("event.is_set")
        return self._flag

    isSet = is_set

    def set(self):
        w = world()
        if w is not None:
            w.point("event.set")
        self._flag = True

    def clear(self):
        w = world()
        if w is not None:
            w.point("event.clear")
        self._flag = False

    def wait(self, timeout=None):
        w = world()
        if w is None:
            return self._flag
        return w.wait(lambda: self._flag, timeout, "event.wait")


class SSemaphore:
    def __init__(self, value=1):
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        w = world()
        if not blocking:
            w.point("sem")
            ok = self._value > 0
        else:
            ok = w.wait(lambda: self._value > 0, timeout, "semaphore")
        if ok:
            self._value -= 1
        return ok

    def release(self, n=1):
        self._value += n

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SBarrier:
    def __init__(self, parties, action=None, timeout=None):
        self.parties, self._n, self._gen = parties, 0, 0

    def wait(self, timeout=None):
        g = self._gen
        k = self._n
        self._n += 1
        if self._n == self.parties:
            self._n = 0
            self._gen += 1
        else:
            world().wait(lambda: self._gen != g, timeout, "barrier")
        return k


class SQueue:
    """A FIFO queue: thread queue, process queue and manager queue alike.

    `kind` decides what can go wrong: a manager queue dies with its manager."""

    def __init__(self, maxsize=0, kind="thread"):
        self.maxsize = maxsize or 0
        self.items = collections.deque()
        self.kind = kind
        self.unfinished = 0
        self.dead = False
        self.puts = self.gets = 0
        self.peak = 0
        s, _ = sched.current()
        self.sim = s
        self.id = None
        if s is not None:
            reg = s.__dict__.setdefault("queues", [])
            self.id = len(reg)
            reg.append(self)

    def _check(self, what):
        for cb in self.sim.__dict__.get("on_queue", ()):
            cb(self, what)
        if self.dead:
            raise (EOFError() if what == "get" else ConnectionRefusedError(111, "Connection refused"))

    def put(self, item, block=True, timeout=None):
        w = world()
        if self.kind != "thread":
            item = pickle.loads(pickle.dumps(item))
        self._check("put")
        full = lambda: self.maxsize > 0 and len(self.items) >= self.maxsize
        if not block:
            w.point("queue.put")
            if full():
                raise _queue.Full
        elif not w.wait(lambda: self.dead or not full(), timeout, "queue.put"):
            raise _queue.Full
        self._check("put")
        self.items.append(item)
        self.unfinished += 1
        self.puts += 1
        self.peak = max(self.peak, len(self.items))
        w.log("put", self.id, self.puts)

    def get(self, block=True, timeout=None):
        w = world()
        self._check("get")
        if not block:
            w.point("queue.get")
            if not self.items:
                self._check("get")
                raise _queue.Empty
        elif not w.wait(lambda: self.dead or bool(self.items), timeout, "queue.get"):
            self._check("get")
            w.count("queue_empty_timeouts")
            raise _queue.Empty
        self._check("get")
        self.gets += 1
        item = self.items.popleft()
        w.log("get", self.id, self.gets)
        return item

    def put_nowait(self, item):
        return self.put(item, False)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        world().point("queue.empty")
        self._check("empty")
        return not self.items

    def qsize(self):
        world().point("queue.qsize")
        self._check("qsize")
        return len(self.items)

    def full(self):
        world().point("queue.full")
        self._check("full")
        return self.maxsize > 0 and len(self.items) >= self.maxsize

    def task_done(self):
        world().point("queue.task_done")
        self.unfinished -= 1

    def join(self):
        world().wait(lambda: self.unfinished <= 0, None, "queue.join")

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass

    def shutdown(self, immediate=False):
        pass

    def __reduce__(self):
        if self.kind == "thread":
            raise TypeError("cannot pickle '_thread.lock' object")
        return (_lookup_shared, (self.id, "queue"))


class SSharedEvent(SEvent):
    def __init__(self):
        super().__init__()
        s, _ = sched.current()
        reg = s.__dict__.setdefault("queues", [])
        self.id = len(reg)
        reg.append(self)

    def __reduce__(self):
        return (_lookup_shared, (self.id, "event"))


class SValue:
    def __init__(self, value):
        s, _ = sched.current()
        reg = s.__dict__.setdefault("queues", [])
        self.id = len(reg)
        reg.append(self)
        self._v = value
        self._lock = SSharedLock()

    def get_lock(self):
        return self._lock

    def _get(self):
        world().point("value.get")
        return self._v

    def _set(self, v):
        world().point("value.set")
        self._v = v

    value = property(_get, _set)
    get = _get
    set = _set

    def __reduce__(self):
        return (_lookup_shared, (self.id, "value"))


class SSharedLock(SRLock):
    """A lock usable from worker processes; the owner there is the proxy task."""

    def __init__(self):
        super().__init__()
        s, _ = sched.current()
        reg = s.__dict__.setdefault("queues", [])
        self.id = len(reg)
        reg.append(self)

    def __reduce__(self):
        return (_lookup_shared, (self.id, "lock"))


def _lookup_shared(id, kind):
    if CHILD is not None:
        return {"queue": CQueue, "event": CEvent, "value": CValue, "lock": CLock}[kind](id)
    s, _ = sched.current()
    return s.queues[id]


# client-side stubs living in a worker process

class CStub:
    def __init__(self, id):
        self._id = id

    def _call(self, name, *a):
        return CHILD.rpc("call", self._id, name, a)

    def __reduce__(self):
        return (_lookup_shared, (self._id, self._kind))


class CQueue(CStub):
    _kind = "queue"

    def put(self, item, block=True, timeout=None):
        return self._call("put", item, block, timeout)

    def get(self, block=True, timeout=None):
        return self._call("get", block, timeout)

    def put_nowait(self, item):
        return self._call("put", item, False, None)

    def get_nowait(self):
        return self._call("get", False, None)

    def empty(self):
        return self._call("empty")

    def qsize(self):
        return self._call("qsize")

    def full(self):
        return self._call("full")

    def task_done(self):
        return self._call("task_done")

    def join(self):
        return self._call("join")

    def close(self):
        pass

    join_thread = cancel_join_thread = close


class CEvent(CStub):
    _kind = "event"

    def is_set(self):
        return self._call("is_set")

    def set(self):
        return self._call("set")

    def clear(self):
        return self._call("clear")

    def wait(self, timeout=None):
        return self._call("wait", timeout)


class CLock(CStub):
    _kind = "lock"

    def acquire(self, blocking=True, timeout=-1):
        return self._call("acquire", blocking, timeout)

    def release(self):
        return self._call("release")

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class CValue(CStub):
    _kind = "value"
    value = property(lambda self: self._call("get"), lambda self, v: self._call("set", v))

    def get(self):
        return self._call("get")

    def set(self, v):
        return self._call("set", v)

    def get_lock(self):
        return CLock(self._call("_lock_id"))


SValue._lock_id = lambda self: self._lock.id


# ---------------------------------------------------------------------------
# threads

class PThread(threading.Thread):
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None, **kw):
        if not isinstance(self, PThread):   # threading._MainThread and friends
            REAL.Thread.__init__(self, group, target, name, args, kwargs, daemon=daemon)
            return
        self._sim_task = None
        self._sim = world() if CHILD is None else None
        if self._sim is None:
            super().__init__(group, target, name, args, kwargs, daemon=daemon)
            return
        # no real Thread bookkeeping: the task is scheduled by the simulator
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self._daemonic = bool(daemon)
        n = self._sim.__dict__.setdefault("_nthreads", itertools.count(1))
        self._name = name or "thread#%d" % next(n)
        self._initialized = True
        self._ident = self._native_id = None
        self._invoke_excepthook = None

    def start(self):
        if self._sim is None:
            return super().start()
        if self._sim_task is not None:
            raise RuntimeError("threads can only be started once")

        def body():
            try:
                self.run()
            except sched.SimAbort:
                raise
            except BaseException as e:
                self._sim.log("thread-died", self._name, type(e).__name__)
                self._sim.__dict__.setdefault("thread_errors", []).append((self._name, repr(e)))
                self._sim.count("thread_died")
                raise
        self._sim_task = self._sim.spawn(body, "thread#" + self._name if not self._name.startswith("thread#") else self._name,
                                         daemon=self._daemonic)
        self._sim.point("thread.start")

    def join(self, timeout=None):
        if self._sim is None:
            return super().join(timeout)
        if self._sim_task is None:
            raise RuntimeError("cannot join thread before it is started")
        self._sim.wait(lambda: self._sim_task.state == "done", timeout, "thread.join")

    def is_alive(self):
        if self._sim is None:
            return super().is_alive()
        self._sim.point("thread.is_alive")
        return self._sim_task is not None and self._sim_task.state != "done"

    @property
    def ident(self):
        if self._sim is None:
            return self._ident
        return self._sim_task.ident if self._sim_task else None

    def __repr__(self):
        return "<Thread %s>" % self._name


class PTimer(PThread):
    def __init__(self, interval, function, args=None, kwargs=None):
        super().__init__(daemon=None)
        self.interval, self.function, self.fargs, self.fkw = interval, function, args or (), kwargs or {}
        self.finished = threading.Event()

    def cancel(self):
        self.finished.set()

    def run(self):
        self.finished.wait(self.interval)
        if not self.finished.is_set():
            self.function(*self.fargs, **self.fkw)
        self.finished.set()


def _factory(simcls, realcls, name):
    """A class that makes simulated objects in a simulation, real ones elsewhere."""
    class Meta(type):
        def __call__(cls, *a, **k):
            if cls is F and world() is not None:
                return simcls(*a, **k)
            if cls is F:
                return realcls(*a, **k)
            return super().__call__(*a, **k)

        def __instancecheck__(cls, obj):
            return isinstance(obj, (simcls, realcls)) if cls is F else type.__instancecheck__(cls, obj)
    bases = (realcls,) if isinstance(realcls, type) else ()
    try:
        F = Meta(name, bases, {})
    except TypeError:
        bases = ()
        F = Meta(name, bases, {})
    return F


# ---------------------------------------------------------------------------
# simulated worker processes: real forked processes driven over a pipe

def _send(fd, obj):
    b = pickle.dumps(obj, protocol=5)
    b = struct.pack("<q", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _recv(fd):
    def exact(n):
        out = b""
        while len(out) < n:
            x = os.read(fd, n - len(out))
            if not x:
                raise EOFError
            out += x
        return out
    n, = struct.unpack("<q", exact(8))
    return pickle.loads(exact(n))


class Child:
    """The world seen by code in a simulated worker process."""

    def __init__(self, rfd, wfd, pid, name):
        self.rfd, self.wfd, self.pid, self.name = rfd, wfd, pid, name
        self.side = []      # out-of-band records for the harness
        self.now = 0.0
        self.ntask = 0

    def rpc(self, *msg):
        side, self.side = self.side, []
        _send(self.wfd, (msg, side))
        ok, value, self.now = _recv(self.rfd)
        if ok == "raise":
            raise value
        return value

    def point(self, what="", weight=None):
        self.rpc("point", what)

    def sleep(self, dt):
        self.rpc("sleep", dt)

    def time(self):
        return self.now

    def wait(self, pred, timeout=None, what=""):
        if pred():
            return True
        self.rpc("sleep", timeout if timeout is not None else 1e12)
        return bool(pred())

    def log(self, *a):
        pass

    def count(self, k, n=1):
        pass


def _die_with_parent():
    LIBC.prctl(1, signal.SIGKILL, 0, 0, 0)


LIBC = ctypes.CDLL(None)


class Died(Exception):
    pass


class WorkerProcess:
    """Parent-side handle: fork on creation, speak over pipes."""

    def __init__(self, sim, name):
        self.sim, self.name = sim, name
        n = sim.__dict__.setdefault("_npids", [0])
        n[0] += 1
        self.index = n[0]
        self.pid = sim.pid_for(self.index)
        pr, cw = os.pipe()
        cr, pw = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        sched.ACTIVE = None         # at-fork handlers must see no simulation
        self.real_pid = REAL.fork()
        if self.real_pid:
            sched.ACTIVE = sim
        if self.real_pid == 0:
            try:
                os.close(pr)
                os.close(pw)
                for q in sim.__dict__.get("procs", ()):
                    if q.alive:
                        os.close(q.r)
                        os.close(q.w)
                _die_with_parent()
                self._child_main(cr, cw)
            finally:
                os._exit(0)
        os.close(cr)
        os.close(cw)
        self.r, self.w = pr, pw
        self.alive = True
        sim.__dict__.setdefault("procs", []).append(self)

    def _child_main(self, r, w):
        global CHILD
        sched.ACTIVE = None
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        CHILD = Child(r, w, self.pid, self.name)
        multiprocessing.current_process()._name = self.name
        hook = CHILD_HOOK
        while True:
            try:
                msg = _recv(r)
            except EOFError:
                os._exit(0)
            if msg[0] == "exit":
                os._exit(0)
            _, payload, CHILD.now = msg
            CHILD.ntask += 1
            try:
                fn, args, kw, init = pickle.loads(payload)
                if hook:
                    hook(CHILD)
                if init:
                    init[0](*init[1])
                res = ("ok", fn(*args, **kw))
                try:
                    pickle.dumps(res)
                except Exception as e:
                    res = ("err", RuntimeError("cannot pickle result: %r" % e))
            except BaseException as e:  # noqa
                tb = traceback.format_exc()
                try:
                    pickle.loads(pickle.dumps(e))
                except Exception:
                    e = RuntimeError("worker raised %r" % (e,))
                res = ("err", e)
            side, CHILD.side = CHILD.side, []
            _send(w, (("done", res), side))

    def run(self, payload):
        """Runs one task in the child; called from the proxy task.  Returns
        ("ok", value) or ("err", exception); raises Died."""
        sim = self.sim
        try:
            _send(self.w, ("task", payload, sim.now))
        except OSError:
            self._dead()
        while True:
            try:
                msg, side = _recv(self.r)
            except (EOFError, OSError):
                self._dead()
            if side:
                sim.side(self, side)
            op = msg[0]
            if op == "done":
                return msg[1]
            try:
                if op == "point":
                    v = sim.point(msg[1])
                elif op == "sleep":
                    v = sim.sleep(msg[1])
                elif op == "call":
                    obj = sim.queues[msg[1]]
                    v = getattr(obj, msg[2])(*msg[3])
                elif op == "side":
                    v = sim.side_rpc(self, *msg[1:])
                else:
                    raise RuntimeError("bad rpc %r" % (op,))
                out = ("ok", v, sim.now)
            except sched.SimAbort:
                raise
            except Exception as e:
                out = ("raise", e, sim.now)
            if getattr(self, "doomed", False):
                self.kill()
            if out[0] == "raise":
                sim.count("exceptions_sent_to_workers")
            try:
                _send(self.w, out)
            except OSError:
                self._dead()

    def kill(self):
        if self.alive:
            try:
                os.kill(self.real_pid, signal.SIGKILL)
            except OSError:
                pass
        self._dead()

    def _dead(self):
        self.stop()
        raise Died(self.name)

    def stop(self):
        if self.alive:
            self.alive = False
            for fd in (self.r, self.w):
                os.close(fd)
            try:
                os.kill(self.real_pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                REAL.waitpid(self.real_pid, 0)
            except OSError:
                pass


CHILD_HOOK = None


def _pid_for(self, index):
    """Simulated pids: distinct for live processes, reused only if asked."""
    return 1000 + index


def _side(self, proc, records):
    self.__dict__.setdefault("side_log", []).extend((proc.index, r) for r in records)


sched.Sim.pid_for = _pid_for
sched.Sim.side = _side


class SAsyncResult:
    def __init__(self, pool, callback=None, error_callback=None):
        self._done = False
        self._res = None
        self._cb, self._ecb = callback, error_callback

    def _set(self, res):
        self._res = res
        self._done = True
        if res[0] == "ok" and self._cb:
            self._cb(res[1])
        if res[0] == "err" and self._ecb:
            self._ecb(res[1])

    def ready(self):
        world().point("result.ready")
        return self._done

    def successful(self):
        if not self._done:
            raise ValueError("not ready")
        return self._res[0] == "ok"

    def wait(self, timeout=None):
        world().wait(lambda: self._done, timeout, "result.wait")

    def get(self, timeout=None):
        if not world().wait(lambda: self._done, timeout, "result.get"):
            raise multiprocessing.TimeoutError
        if self._res[0] == "err":
            raise self._res[1]
        return self._res[1]


class SMapResult:
    def __init__(self, parts, flat=None):
        self.parts = parts

    def ready(self):
        return all(p._done for p in self.parts)

    def wait(self, timeout=None):
        world().wait(lambda: all(p._done for p in self.parts), timeout, "map.wait")

    def get(self, timeout=None):
        if not world().wait(lambda: all(p._done for p in self.parts)
                            or any(p._done and p._res[0] == "err" for p in self.parts), timeout, "map.get"):
            raise multiprocessing.TimeoutError
        for p in self.parts:
            if p._done and p._res[0] == "err":
                raise p._res[1]
        return [p._res[1] for p in self.parts]


class SPool:
    """multiprocessing.Pool: any idle worker takes the next task; a worker that
    dies is replaced and its task is lost (as in the real Pool)."""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self.sim = world()
        self.n = processes or _cpu_count()
        if self.n < 1:
            raise ValueError("Number of processes must be at least 1")
        self.init = (initializer, initargs) if initializer else None
        self.maxtasks = maxtasksperchild
        self.tasks = collections.deque()
        self.closed = False
        self.terminated = False
        self.workers = []
        self.lost = 0
        k = self.sim.__dict__.setdefault("_npools", itertools.count(1))
        self.id = next(k)
        for i in range(self.n):
            self._spawn(i)
        self.sim.count("pool_processes", self.n)

    def _spawn(self, i):
        proc = WorkerProcess(self.sim, "worker#%d.%d" % (self.id, i))
        self.workers.append(self.sim.spawn(lambda: self._serve(proc, i), "worker#%d.%d" % (self.id, i), daemon=True))
        return proc

    def _on_death(self, res):
        self.lost += 1     # the real Pool never completes this result

    def _serve(self, proc, i):
        fresh = True
        done = 0
        while True:
            self.sim.wait(lambda: self.tasks or self.closed, None, "pool worker idle")
            if not self.tasks:
                break
            res, payload = self.tasks.popleft()
            self.sim.log("task", proc.index)
            self.sim.__dict__.setdefault("task_procs", []).append(proc.index)
            try:
                out = proc.run(payload)
            except Died:
                self.sim.count("worker_died")
                self.sim.log("died", proc.index)
                if self.terminated:
                    return
                self._on_death(res)
                proc = WorkerProcess(self.sim, proc.name) if not self._broken() else None
                if proc is None:
                    return
                continue
            self.sim.point("pool result")
            res._set(out)
            done += 1
            if self.maxtasks and done >= self.maxtasks:
                proc.stop()
                proc = WorkerProcess(self.sim, proc.name)
                done = 0
        proc.stop()

    @property
    def _pool(self):
        return [SChildHandle(p) for p in self.sim.procs if p.name.startswith("worker#%d." % self.id) and p.alive]

    def _broken(self):
        return False

    def _submit(self, fn, args, kw, res):
        if self.closed:
            raise ValueError("Pool not running")
        payload = pickle.dumps((fn, tuple(args), dict(kw), self.init))
        self.tasks.append((res, payload))
        self.sim.point("pool submit")
        return res

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return self._submit(func, args, kwds, SAsyncResult(self, callback, error_callback))

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def map_async(self, func, it, chunksize=None, callback=None, error_callback=None):
        return SMapResult([self._submit(func, (x,), {}, SAsyncResult(self)) for x in it])

    def map(self, func, it, chunksize=None):
        return self.map_async(func, it).get()

    def starmap_async(self, func, it, chunksize=None, callback=None, error_callback=None):
        return SMapResult([self._submit(func, tuple(x), {}, SAsyncResult(self)) for x in it])

    def starmap(self, func, it, chunksize=None):
        return self.starmap_async(func, it).get()

    def imap(self, func, it, chunksize=1):
        parts = [self._submit(func, (x,), {}, SAsyncResult(self)) for x in it]
        return (p.get() for p in parts)

    def imap_unordered(self, func, it, chunksize=1):
        parts = [self._submit(func, (x,), {}, SAsyncResult(self)) for x in it]

        def gen():
            left = list(parts)
            while left:
                world().wait(lambda: any(p._done for p in left), None, "imap")
                p = next(p for p in left if p._done)
                left.remove(p)
                yield p.get()
        return gen()

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = True
        self.tasks.clear()
        for p in self.sim.procs:
            if p.name.startswith("worker#%d." % self.id):
                p.doomed = True
        self.terminated = True
        for t in self.workers:
            t.daemon = True

    def join(self):
        self.sim.wait(lambda: all(t.state == "done" or t.what == "pool worker idle" for t in self.workers), None, "pool.join")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")


class SFuture(concurrent.futures.Future):
    def __init__(self):
        super().__init__()
        self._sdone = False

    def _set(self, res):
        self._sdone = True
        self._res = res
        for cb in getattr(self, "_cbs", ()):
            cb(self)

    def done(self):
        return self._sdone

    def running(self):
        return not self._sdone

    def cancelled(self):
        return self._sdone and isinstance(self._res[1], concurrent.futures.CancelledError)

    def cancel(self):
        return False

    def add_done_callback(self, fn):
        if self._sdone:
            fn(self)
        else:
            self.__dict__.setdefault("_cbs", []).append(fn)

    def exception(self, timeout=None):
        if not world().wait(lambda: self._sdone, timeout, "future.exception"):
            raise TimeoutError
        return self._res[1] if self._res[0] == "err" else None

    def result(self, timeout=None):
        if not world().wait(lambda: self._sdone, timeout, "future.result"):
            raise TimeoutError
        if self._res[0] == "err":
            raise self._res[1]
        return self._res[1]


class SExecutor(SPool):
    """ProcessPoolExecutor: a dead worker breaks the whole pool."""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        self.broken = False
        self.pending = []
        world().__dict__.setdefault("executors", []).append(self)
        super().__init__(max_workers, initializer, initargs)

    def _broken(self):
        return self.broken

    def _on_death(self, res):
        self.broken = True
        self.tasks.clear()
        for p in self.sim.procs:
            if p.name.startswith("worker#%d." % self.id):
                p.doomed = True
        exc = concurrent.futures.process.BrokenProcessPool(
            "A process in the process pool was terminated abruptly while the future was running or pending.")
        for f in self.pending:
            if not f._sdone:
                f._set(("err", exc))
        self.closed = True

    def submit(self, fn, /, *args, **kw):
        if self.broken:
            raise concurrent.futures.process.BrokenProcessPool("A child process terminated abruptly")
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = SFuture()
        self.pending.append(f)
        return self._submit(fn, args, kw, f)

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*its)]
        return (f.result() for f in fs)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.closed = True
        if cancel_futures:
            for res, _ in self.tasks:
                res._set(("err", concurrent.futures.CancelledError()))
            self.tasks.clear()
        if wait:
            self.sim.wait(lambda: all(t.state == "done" for t in self.workers), None, "executor.shutdown")
        else:
            for t in self.workers:
                t.daemon = False     # joined at interpreter exit

    def __exit__(self, *a):
        self.shutdown(True)
        return False


class SThreadExecutor:
    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
        self.sim = world()
        self.n = max_workers or 4
        self.tasks = collections.deque()
        self.closed = False
        self.threads = []

    def _serve(self):
        while True:
            self.sim.wait(lambda: self.tasks or self.closed, None, "executor idle")
            if not self.tasks:
                return
            f, fn, a, k = self.tasks.popleft()
            try:
                f._set(("ok", fn(*a, **k)))
            except sched.SimAbort:
                raise
            except BaseException as e:
                f._set(("err", e))

    def submit(self, fn, /, *a, **k):
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = SFuture()
        self.tasks.append((f, fn, a, k))
        if len(self.threads) < self.n:
            self.threads.append(self.sim.spawn(self._serve, "pool-thread#%d" % len(self.threads)))
        self.sim.point("submit")
        return f

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*its)]
        return (f.result() for f in fs)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.closed = True
        if wait:
            self.sim.wait(lambda: all(t.state == "done" for t in self.threads), None, "executor.shutdown")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown(True)
        return False


def s_wait(fs, timeout=None, return_when="ALL_COMPLETED"):
    fs = list(fs)
    if not any(isinstance(f, SFuture) for f in fs):
        return REAL.cf_wait(fs, timeout, return_when)

    def ready():
        if return_when == "FIRST_COMPLETED":
            return any(f._sdone for f in fs)
        if return_when == "FIRST_EXCEPTION":
            return all(f._sdone for f in fs) or any(f._sdone and f._res[0] == "err" for f in fs)
        return all(f._sdone for f in fs)
    world().wait(ready, timeout, "futures.wait")
    return concurrent.futures._base.DoneAndNotDoneFutures({f for f in fs if f._sdone}, {f for f in fs if not f._sdone})


def s_as_completed(fs, timeout=None):
    fs = list(fs)
    if not any(isinstance(f, SFuture) for f in fs):
        yield from REAL.cf_as_completed(fs, timeout)
        return
    left = list(fs)
    while left:
        world().wait(lambda: any(f._sdone for f in left), timeout, "as_completed")
        f = next(f for f in left if f._sdone)
        left.remove(f)
        yield f


class SProcess:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        self.sim = world()
        self.target, self.args, self.kwargs, self.daemon = target, args, kwargs, daemon
        k = self.sim.__dict__.setdefault("_nprocobj", itertools.count(1))
        self.name = name or "Process-%d" % next(k)
        self._task = None
        self.exitcode = None
        self.pid = None

    def start(self):
        self._proc = WorkerProcess(self.sim, "process#" + self.name)
        self.pid = self._proc.pid
        payload = pickle.dumps((self.target, tuple(self.args), dict(self.kwargs), None))

        def body():
            try:
                out = self._proc.run(payload)
                self.exitcode = 0 if out[0] == "ok" else 1
            except Died:
                self.exitcode = -9
            self._proc.stop()
        self._task = self.sim.spawn(body, "process#" + self.name, daemon=bool(self.daemon))
        self.sim.point("process.start")

    def join(self, timeout=None):
        self.sim.wait(lambda: self._task.state == "done", timeout, "process.join")

    def is_alive(self):
        self.sim.point("process.is_alive")
        return self._task is not None and self._task.state != "done"

    def terminate(self):
        self._proc.doomed = True

    kill = terminate


class SChildHandle:
    """What multiprocessing.active_children() shows for a pool worker."""

    def __init__(self, proc):
        self._proc = proc
        self.pid = proc.pid
        self.name = proc.name
        self.daemon = True

    def is_alive(self):
        world().point("process.is_alive")
        return self._proc.alive

    @property
    def exitcode(self):
        return None if self._proc.alive else -9

    def terminate(self):
        self._proc.doomed = True

    kill = terminate

    def join(self, timeout=None):
        world().wait(lambda: not self._proc.alive, timeout, "process.join")

    def __eq__(self, o):
        return isinstance(o, SChildHandle) and o._proc is self._proc

    def __hash__(self):
        return id(self._proc)


def _active_children():
    w = world()
    if w is None or CHILD is not None:
        return REAL.active_children()
    return [SChildHandle(p) for p in w.__dict__.get("procs", ()) if p.alive]


class SManager:
    def __init__(self, *a, **k):
        self.sim = world()
        self.objects = []
        self.sim.__dict__.setdefault("managers", []).append(self)
        self.up = True

    def start(self, *a):
        pass

    def connect(self):
        pass

    def Queue(self, maxsize=0):
        q = SQueue(maxsize, "manager")
        lim = getattr(self.sim, "queue_bound", None)
        if lim and q.maxsize:
            q.maxsize = min(q.maxsize, lim)
        self.objects.append(q)
        return q

    JoinableQueue = Queue

    def Event(self):
        return SSharedEvent()

    def Lock(self):
        return SSharedLock()

    RLock = Lock

    def Value(self, typecode, value):
        return SValue(value)

    def shutdown(self):
        self.die()

    def die(self):
        self.up = False
        for q in self.objects:
            q.dead = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


def _cpu_count():
    w = world()
    if w is not None and CHILD is None:
        return getattr(w, "cpus", 4)
    if CHILD is not None:
        return 4
    return REAL.cpu_count()


def _getpid():
    if CHILD is not None:
        return CHILD.pid
    if sched.current()[0] is not None:
        return 1000
    return REAL.getpid()


INSTALLED = False


def install():
    global INSTALLED
    if INSTALLED:
        return
    INSTALLED = True
    REAL.fork, REAL.waitpid, REAL.getpid = os.fork, os.waitpid, os.getpid
    REAL.cpu_count = os.cpu_count
    REAL.sleep = _time.sleep
    REAL.time, REAL.monotonic, REAL.perf_counter = _time.time, _time.monotonic, _time.perf_counter
    for n in ("time", "monotonic", "perf_counter", "process_time"):
        setattr(_time, n, _clock(n, getattr(_time, n)))
    for n in ("time_ns", "monotonic_ns", "perf_counter_ns"):
        setattr(_time, n, _clock(n, getattr(_time, n), 1))
    _time.sleep = _sleep
    os.getpid = _getpid
    os.cpu_count = _cpu_count
    multiprocessing.cpu_count = _cpu_count
    if hasattr(os, "process_cpu_count"):
        os.process_cpu_count = _cpu_count
    os.sched_getaffinity = (lambda real: lambda pid: set(range(_cpu_count())) if world() is not None else real(pid))(os.sched_getaffinity)

    # threading
    REAL.Thread = threading.Thread
    threading.Thread = PThread
    threading.Timer = PTimer
    threading.Event = _factory(SEvent, threading.Event, "Event")
    threading.Condition = _factory(SCondition, threading.Condition, "Condition")
    threading.Semaphore = _factory(SSemaphore, threading.Semaphore, "Semaphore")
    threading.BoundedSemaphore = _factory(SSemaphore, threading.BoundedSemaphore, "BoundedSemaphore")
    threading.Barrier = _factory(SBarrier, threading.Barrier, "Barrier")
    threading.Lock = _factory(SLock, threading.Lock, "Lock")
    threading.RLock = _factory(SRLock, threading.RLock, "RLock")
    # queue
    for n in ("Queue", "LifoQueue", "SimpleQueue"):
        setattr(_queue, n, _factory(SQueue, getattr(_queue, n), n))
    # multiprocessing
    REAL.cf_wait, REAL.cf_as_completed = concurrent.futures.wait, concurrent.futures.as_completed
    REAL.mp = {}

    def either(sim, real):
        def f(*a, **k):
            if world() is not None:
                return sim(*a, **k)
            return real(*a, **k)
        return f
    REAL.active_children = multiprocessing.active_children
    multiprocessing.active_children = multiprocessing.process.active_children = _active_children
    mpq = lambda maxsize=0, **k: SQueue(maxsize, "process")
    table = dict(Pool=SPool, Manager=SManager, Process=SProcess, Queue=mpq,
                 JoinableQueue=mpq, SimpleQueue=lambda: SQueue(0, "process"), Event=SSharedEvent,
                 Lock=SSharedLock, RLock=SSharedLock, Value=lambda tc, v=0, **k: SValue(v))
    for n, cls in table.items():
        setattr(multiprocessing, n, either(cls, getattr(multiprocessing, n)))
        for ctx in (multiprocessing.context.BaseContext, multiprocessing.context.DefaultContext):
            if n in vars(ctx) or ctx is multiprocessing.context.BaseContext:
                real = getattr(ctx, n, None)
                if real is None:
                    continue
                def method(self, *a, _cls=cls, _real=real, **k):
                    if world() is not None:
                        return _cls(*a, **k)
                    return _real(self, *a, **k)
                setattr(ctx, n, method)
    multiprocessing.context.BaseContext.cpu_count = lambda self: _cpu_count()
    multiprocessing.pool.Pool = _factory(SPool, multiprocessing.pool.Pool, "Pool")
    multiprocessing.managers.SyncManager = _factory(SManager, multiprocessing.managers.SyncManager, "SyncManager")
    import concurrent.futures.process as cfp
    import concurrent.futures.thread as cft
    concurrent.futures.ProcessPoolExecutor = cfp.ProcessPoolExecutor = _factory(SExecutor, cfp.ProcessPoolExecutor, "ProcessPoolExecutor")
    concurrent.futures.ThreadPoolExecutor = cft.ThreadPoolExecutor = _factory(SThreadExecutor, cft.ThreadPoolExecutor, "ThreadPoolExecutor")
    concurrent.futures.wait = concurrent.futures._base.wait = s_wait
    concurrent.futures.as_completed = concurrent.futures._base.as_completed = s_as_completed
