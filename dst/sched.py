"""A baton-passing scheduler over real threads.

Exactly one task runs at any time; who runs next is decided only at intercepted
points (queue, lock, event, sleep, database and process operations) by the
Chooser, and time is virtual.  Tasks are real threads parked on private locks,
so unmodified blocking code runs inside the simulation.
"""
import _thread
import hashlib
import sys
import time as _time

_real_lock = _thread.allocate_lock
ACTIVE = None  # the simulation running in this OS process, if any


class SimAbort(BaseException):
    """Raised inside tasks to unwind them once the simulation is over."""


class Hang(Exception):
    pass


class Task:
    __slots__ = ("name", "sem", "state", "pred", "deadline", "weight", "ident",
                 "pending", "error", "daemon", "what", "thread", "steps", "group", "external")

    def __init__(self, name, weight=1.0, daemon=False, group=0):
        self.name = name
        self.sem = _real_lock()
        self.sem.acquire()
        self.state = "ready"
        self.pred = None
        self.deadline = None
        self.weight = weight
        self.ident = None
        self.pending = None     # exception to raise at the next point
        self.error = None
        self.daemon = daemon
        self.what = ""
        self.thread = None
        self.steps = 0
        self.group = group
        self.external = False   # stands for another program


class Sim:
    def __init__(self, chooser, switch=0.3, early_timer=0.02, limit_time=3600.0,
                 limit_steps=400000, weights=None):
        self.chooser = chooser
        self.switch = switch
        self.early = early_timer
        self.weights = weights or {}
        self.limit_time = limit_time
        self.limit_steps = limit_steps
        self.now = 1_000_000.0
        self.t0 = self.now
        self.steps = 0
        self.switches = 0
        self.tasks = []
        self.by_ident = {}
        self.current = None
        self.main = None
        self.failure = None
        self.over = False
        self.trace = hashlib.sha256()
        self.events = []        # human-readable log of the run (bounded)
        self.on_point = []      # callbacks(sim, task, what) for fault injection
        self.counters = {}
        self.exited = False

    # -- tasks ---------------------------------------------------------------
    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def spawn(self, fn, name, daemon=False, weight=None, external=False):
        t = Task(name, weight if weight is not None else self.weights.get(name.split("#")[0], 1.0), daemon or external)
        t.external = external
        self.tasks.append(t)

        def boot():
            t.ident = _thread.get_ident()
            self.by_ident[t.ident] = t
            t.sem.acquire()
            try:
                if not self.over:
                    fn()
            except SimAbort:
                pass
            except BaseException as e:  # noqa
                t.error = e
            finally:
                t.state = "done"
                if not self.over:
                    self.log("end", t.name)
                    self._dispatch(t)
        _thread.start_new_thread(boot, ())
        # the thread registers itself before it first runs: wait for the sem handshake
        while t.ident is None:
            _time_sleep(0)
        return t

    def log(self, *what):
        self.trace.update(repr((self.current.name if self.current else "-",) + what).encode())
        if len(self.events) < 4000:
            self.events.append("%.6f %s %s" % (self.now - self.t0, self.current.name if self.current else "-", " ".join(map(str, what))))

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    # -- scheduling ----------------------------------------------------------
    def point(self, what="", weight=None):
        """A preemption point."""
        t = self.me()
        if t is None:
            return
        if self.over:
            raise SimAbort()
        t.what = what
        for cb in self.on_point:
            cb(self, t, what)
        self._dispatch(t)
        self._resume(t)

    def _resume(self, t):
        if self.over:
            raise SimAbort()
        if t.pending is not None:
            e, t.pending = t.pending, None
            raise e

    def wait(self, pred, timeout=None, what=""):
        """Block until pred() or timeout (virtual seconds); returns bool(pred())."""
        t = self.me()
        if t is None:
            raise RuntimeError("sim wait from an unknown thread: " + what)
        if self.over:
            raise SimAbort()
        for cb in self.on_point:
            cb(self, t, what)
        t.what = what
        t.pred = pred
        t.deadline = None if timeout is None else self.now + max(0.0, timeout)
        t.state = "blocked"
        try:
            self._dispatch(t)
        finally:
            t.state = "ready"
            t.pred = None
            t.deadline = None
        self._resume(t)
        return bool(pred())

    def sleep(self, dt):
        self.wait(lambda: False, max(0.0, dt), "sleep")

    def interrupt(self, t, exc):
        t.pending = exc

    def _fail(self, kind, detail):
        if self.failure is None:
            self.failure = (kind, detail)
        self.over = True
        m = self.main
        self.current = m
        return m

    def _dispatch(self, t):
        nxt = self._pick(t)
        if nxt is t and t.state != "done":
            return
        self.switches += 1
        self.current = nxt
        nxt.sem.release()
        if t.state != "done":
            t.sem.acquire()

    def describe(self):
        return "; ".join("%s: %s%s" % (t.name, t.state, (" in " + t.what) if t.what else "")
                         for t in self.tasks if t.state != "done")

    def _pick(self, t):
        if self.over:
            return self.main
        self.steps += 1
        t.steps += 1
        self.now += 1e-6
        if self.steps > self.limit_steps:
            return self._fail("hang", "no end after %d steps: %s" % (self.steps, self.describe()))
        if self.now - self.t0 > self.limit_time:
            return self._fail("hang", "no end after %.0f simulated seconds: %s" % (self.now - self.t0, self.describe()))
        cands = []
        timer = None
        for x in self.tasks:
            s = x.state
            if s == "ready":
                cands.append(x)
            elif s == "blocked":
                if x.pending is not None or x.pred() or (x.deadline is not None and x.deadline <= self.now):
                    cands.append(x)
                elif x.deadline is not None and (timer is None or x.deadline < timer.deadline):
                    timer = x
        if not cands:
            if timer is None:
                if self.main.state == "done" and all(x.state == "done" or x.daemon for x in self.tasks):
                    return self.main
                return self._fail("deadlock", "every task is blocked for ever: " + self.describe())
            self.now = timer.deadline
            self.trace.update(b"T")
            return timer
        # option 0: carry on with the current task (or the first ready one)
        if t in cands:
            cands.remove(t)
            cands.insert(0, t)
        n = len(cands) + (1 if timer is not None else 0)
        if n == 1:
            k = 0
        else:
            k = self.chooser.next(n, lambda r: self._random_pick(r, cands, timer, t))
        if k < len(cands):
            c = cands[k]
        else:
            self.now = timer.deadline
            c = timer
            self.count("early_timer")
        self.trace.update(b"%d:%s" % (k, c.name.encode()))
        return c

    def _random_pick(self, r, cands, timer, t):
        if timer is not None and r.random() < self.early:
            return len(cands)
        if cands[0] is t and r.random() >= self.switch:
            return 0
        total = sum(c.weight for c in cands)
        x = r.random() * total
        for i, c in enumerate(cands):
            x -= c.weight
            if x < 0:
                return i
        return len(cands) - 1

    # -- running -------------------------------------------------------------
    def run(self, fn):
        """Runs fn as the main task; returns (result, exception)."""
        global ACTIVE
        t = Task("main", self.weights.get("main", 1.0))
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        self.tasks.append(t)
        self.main = self.current = t
        ACTIVE = self
        result = exc = None
        try:
            try:
                result = fn()
            except SimAbort:
                pass
            except BaseException as e:  # noqa
                exc = e
            # interpreter exit: join the non-daemon threads
            self.exit_error = exc
            if not self.over:
                try:
                    self.log("main-end", type(exc).__name__)
                    for e in self.__dict__.get("executors", ()):   # joined at exit
                        e.closed = True
                        for x in e.workers:
                            x.daemon = False
                    for _ in range(100):
                        rest = [x for x in self.tasks if x is not t and not x.daemon and x.state != "done"]
                        if not rest:
                            break
                        self.wait(lambda: all(x.state == "done" for x in rest), None, "interpreter exit")
                    self.log("exit")
                    self.exited = True
                    for x in self.tasks:        # the process is gone, other programs carry on
                        if x is not t and not x.external and x.state != "done":
                            x.state = "gone"
                    rest = [x for x in self.tasks if x.external]
                    if rest:
                        self.wait(lambda: all(x.state == "done" for x in rest), None, "other programs")
                except SimAbort:
                    pass
                except BaseException as e:  # an interrupt at exit
                    exc = exc or e
        finally:
            self.over = True
            ACTIVE = None
        return result, exc

    def fingerprint(self):
        return self.trace.hexdigest()[:16]


_time_sleep = _time.sleep


def current():
    """(sim, task) of the calling thread when it runs inside a simulation."""
    s = ACTIVE
    if s is None:
        return None, None
    t = s.by_ident.get(_thread.get_ident())
    if t is None:
        return None, None
    return s, t
