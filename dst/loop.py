"""An asyncio event loop in virtual time, with a virtual thread pool.

Callbacks run in asyncio's own order; what varies is when things happen: every
timer, network delivery, blocked send and pool job lasts as long as the seeded
generator says, and a pool job (real code in a real thread, one at a time) is
suspended at seeded calls inside it so that the loop runs in between.
"""
import _thread
import asyncio
import contextvars
import sys

CONN = contextvars.ContextVar("dst_connection", default=None)
_real_lock = _thread.allocate_lock


class JobAbort(BaseException):
    pass


class Quiet(Exception):
    """Nothing is left that could ever run."""


class Budget(Exception):
    """The simulation did not come to rest within its limits."""


class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout=None):
        loop = self.loop
        if timeout is None:
            loop.stop()
            loop.quiet = True
        elif timeout > 0:
            loop.now += timeout
            if loop.now > loop.limit_time:
                loop.out_of_budget = "simulated time %.0f s" % loop.limit_time
                loop.stop()
        loop.turns += 1
        if loop.turns > loop.limit_turns:
            loop.out_of_budget = "%d loop turns" % loop.limit_turns
            loop.stop()
        return []

    def close(self):
        pass


class Job:
    def __init__(self, loop, fn, future, conn):
        self.loop, self.fn, self.future, self.conn = loop, fn, future, conn
        self.state = "queued"
        self.lock = _real_lock()
        self.lock.acquire()
        self.back = _real_lock()
        self.back.acquire()
        self.yields = 0
        self.calls = 0
        self.abort = False
        self.result = self.error = None
        self.pushed = 0
        self.seq = None

    def start(self):
        if self.future.cancelled():
            self.state = "dropped"
            self.loop.jobs_live.discard(self)
            self.loop.fill()
            return
        self.state = "running"
        self.seq = self.loop.tick()
        self.loop.jobs_started.append(self)
        _thread.start_new_thread(self._body, ())
        self.back.acquire()
        self._after()

    def step(self):
        self.lock.release()
        self.back.acquire()

    def resume(self):
        if self.state == "running":
            self.step()
        self._after()

    def _after(self):
        loop = self.loop
        if self.state == "running":
            loop.suspended += 1
            loop.call_later(loop.draw_time("slice"), self.resume)
        else:
            loop.call_later(loop.draw_time("slice") + loop.draw_time("handover"), self._deliver)

    def _deliver(self):
        self.loop.jobs_live.discard(self)
        self.loop.fill()
        if not self.future.done():
            if self.error is not None:
                self.future.set_exception(self.error)
            else:
                self.future.set_result(self.result)

    def _profile(self, frame, event, arg):
        if event != "call" or self.loop.root not in frame.f_code.co_filename:
            return
        if importing(frame):
            return  # the interpreter holds a lock the other jobs may need
        self.calls += 1
        if self.yields < self.loop.max_yields and self.loop.rng.random() < self.loop.yield_rate:
            self.yields += 1
            self.pause()

    def pause(self):
        self.back.release()
        self.lock.acquire()
        if self.abort:
            raise JobAbort()

    def _body(self):
        _jobs[_thread.get_ident()] = self
        try:
            if self.loop.yield_rate > 0:
                sys.setprofile(self._profile)
            try:
                self.result = self.fn()
            finally:
                sys.setprofile(None)
        except BaseException as e:  # noqa
            self.error = e
        self.state = "done"
        _jobs.pop(_thread.get_ident(), None)
        self.back.release()


_jobs = {}      # thread -> running job
_loops = []


class Lock:
    """A lock that a job waits for by letting the others run."""

    def __init__(self):
        self.owner = None
        self.count = 0

    reentrant = False

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout == 0:
                return False
            job = _jobs.get(me)
            if job is not None:
                job.pause()
            else:
                # the loop itself waits: let suspended jobs go on
                js = [j for l in _loops for j in l.jobs_live if j.state == "running"]
                if not js or timeout is not None and timeout > 0:
                    return False
                for j in js:
                    if self.owner is not None:
                        j.pushed += 1
                        j.step()
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    reentrant = True


def importing(frame):
    while frame is not None:
        if frame.f_code.co_name == "<module>" or frame.f_code.co_filename.startswith("<frozen importlib"):
            return True
        frame = frame.f_back
    return False


class SimLoop(asyncio.BaseEventLoop):
    def __init__(self, rng, times=None, yield_rate=0.0, max_yields=6, pool=12, root="/pvtrace/", limit_time=1e5, limit_turns=200000):
        super().__init__()
        self._selector = _Selector(self)
        self.now = 1000.0
        self.t0 = self.now
        self.rng = rng
        self.times = times or {}
        self.yield_rate, self.max_yields, self.pool, self.root = yield_rate, max_yields, pool, root
        self.limit_time, self.limit_turns = self.now + limit_time, limit_turns
        self.turns = 0
        self.quiet = False
        self.out_of_budget = None
        self.jobs_live = set()
        self.jobs_queue = []
        self.jobs_started = []
        self.suspended = 0
        self.seq = 0
        self.errors = []
        self._clock_resolution = 1e-9
        _loops[:] = [self]
        self.set_exception_handler(lambda loop, ctx: self.errors.append(ctx))

    def time(self):
        return self.now

    def tick(self):
        self.seq += 1
        return self.seq

    def draw_time(self, what):
        lo, hi = self.times.get(what, (0.0, 0.0))
        return lo + (hi - lo) * self.rng.random() ** 3

    def _process_events(self, events):
        pass

    def _write_to_self(self):
        pass

    def fill(self):
        while self.jobs_queue and len(self.jobs_live) < self.pool:
            j = self.jobs_queue.pop(0)
            self.jobs_live.add(j)
            self.call_later(self.draw_time("pool"), j.start)

    def run_in_executor(self, executor, func, *args):
        future = self.create_future()
        ctx = None
        job = Job(self, lambda: func(*args), future, CONN.get())
        self.jobs_queue.append(job)
        self.fill()
        return future

    def settle(self):
        """Runs until nothing is left to do.  False: the limits were hit first."""
        self.quiet = False
        self.run_forever()
        return self.quiet and not self.out_of_budget

    def shutdown(self):
        for j in list(self.jobs_live):
            if j.state == "running":
                j.abort = True
                while j.state == "running":
                    j.lock.release()
                    j.back.acquire()
        for t in asyncio.all_tasks(self):
            t._log_destroy_pending = False
        self._ready.clear()
        self._scheduled.clear()
        self.close()


def patch_threads():
    """Blocking helpers of the web framework use the virtual pool as well."""
    import anyio.to_thread
    import functools

    async def run_sync(func, *args, abandon_on_cancel=False, cancellable=None, limiter=None):
        loop = asyncio.get_running_loop()
        return await loop.run_in_executor(None, functools.partial(contextvars.copy_context().run, func, *args))
    anyio.to_thread.run_sync = run_sync
