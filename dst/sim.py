"""
Deterministic simulator core.

One `Sim` object is one run: virtual clock, an asyncio event loop whose timers are virtual, worker threads that run one
at a time under a baton, a decision source (every nondeterministic choice is one integer taken from an explicit list or
a seeded generator and recorded), a fault plan and an event trace.
"""

import asyncio
import collections
import concurrent.futures
import concurrent.futures.thread
import hashlib
import heapq
import random
import threading
import typing

_real_ThreadPoolExecutor = concurrent.futures.thread.ThreadPoolExecutor


class SimHang(BaseException):
    "Nothing can make progress, or the step budget is exhausted."


class SimHarnessError(BaseException):
    "The harness itself is wrong (unsupported statement etc.): never reported as a violation."


class ClientCrash(BaseException):
    "The simulated client process dies."


class Chooser:
    """
    Source of decisions. Takes decisions from an explicit list first, then from a seeded generator (or 0).
    Every decision is recorded, so that a run is exactly repeatable from the list.
    """

    def __init__(self, seed: typing.Optional[int], explicit: typing.Optional[list[int]] = None):
        self.rng = random.Random(seed) if seed is not None else None
        self.explicit = list(explicit or [])
        self.pos = 0
        self.log: list[int] = []

    def choose(self, n: int) -> int:
        if n <= 1:
            return 0
        if self.pos < len(self.explicit):
            v = self.explicit[self.pos] % n
        elif self.rng is not None:
            v = self.rng.randrange(n)
        else:
            v = 0
        self.pos += 1
        self.log.append(v)
        return v


class SimThread:
    def __init__(self, sim: "Sim", pool: "SimExecutor", ident: int):
        self.sim = sim
        self.pool = pool
        self.ident = ident
        self.go = threading.Semaphore(0)
        self.wake: typing.Optional[float] = None  # virtual time to resume at; None when idle
        self.cond: typing.Optional[typing.Callable[[], bool]] = None
        self.queue: collections.deque = collections.deque()
        self.exited = False
        self.kill = False
        self.thread = threading.Thread(target=self._main, daemon=True)
        self.started = False

    def _main(self):
        self.sim._tls.thread = self
        self.go.acquire()
        while True:
            if self.kill:
                break
            item = self.pool._next_item()
            if item is None:
                self.wake = None
                if self.pool._shutdown:
                    break
                self.pool._idle.append(self)
                self.sim._yield_baton(self)
                if self.kill:
                    break
                continue
            fut, fn, args, kwargs = item
            if not fut.set_running_or_notify_cancel():
                continue
            try:
                res = fn(*args, **kwargs)
            except BaseException as e:  # noqa
                if self.kill:
                    break
                fut.set_exception(e)
            else:
                fut.set_result(res)
        self.exited = True
        self.wake = None
        self.cond = None
        self.sim.threads.remove(self)
        self.sim._baton.release()


class SimFuture(concurrent.futures.Future):
    _sim: "Sim" = None  # type: ignore

    def result(self, timeout=None):
        self._drive()
        return super().result(timeout)

    def exception(self, timeout=None):
        self._drive()
        return super().exception(timeout)

    def _drive(self):
        sim = self._sim
        if not self.done() and sim.on_loop_thread():
            sim.note("loop-blocked-on-future")
            sim.drive_threads_until(self.done, "future.result")


class SimExecutor:
    "Stand-in for concurrent.futures.ThreadPoolExecutor: threads run only when the simulator hands them the baton."

    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
        self._max = max_workers or 8
        self._shutdown = False
        self._lock = threading.Lock()
        self._initializer = (initializer, initargs)
        self.sim: "Sim" = None  # type: ignore
        if Sim._current is not None:
            self._bind()

    def _bind(self):
        "An executor that is older than the simulation starts over in it."
        sim = Sim.current()
        if self.sim is not sim:
            self.sim = sim
            self._items: collections.deque = collections.deque()
            self._threads: list[SimThread] = []
            self._idle: list[SimThread] = []

    def _next_item(self):
        return self._items.popleft() if self._items else None

    def submit(self, fn, /, *args, **kwargs):
        if self._shutdown:
            raise RuntimeError("cannot schedule new futures after shutdown")
        self._bind()
        fut = SimFuture()
        fut._sim = self.sim
        self._items.append((fut, fn, args, kwargs))
        if self._idle:
            t = self._idle.pop()
            t.wake = self.sim.now
        elif len(self._threads) < self._max:
            t = self.sim.new_thread(self)
            self._threads.append(t)
            t.wake = self.sim.now
        return fut

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        futs = [self.submit(fn, *a) for a in zip(*iterables)]
        return iter([f.result() for f in futs])

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._shutdown = True
        if Sim._current is None:
            return
        self._bind()
        if cancel_futures:
            while self._items:
                self._items.popleft()[0].cancel()
        busy = lambda: any(t.wake is not None or t.cond is not None for t in self._threads if not t.exited) or self._items
        if wait and busy():
            self.sim.drive_threads_until(lambda: not busy(), "executor.shutdown")
        while self._idle:
            self.sim.kill_thread(self._idle.pop())

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.shutdown(wait=True)
        return False


def install_executor() -> None:
    "Must run before anything imports the names."
    concurrent.futures.ThreadPoolExecutor = SimExecutor  # type: ignore
    concurrent.futures.thread.ThreadPoolExecutor = SimExecutor  # type: ignore


class SimLoop(asyncio.BaseEventLoop):
    def __init__(self, sim: "Sim"):
        self.sim = sim
        super().__init__()
        self._clock_resolution = 1e-9
        self.slow_callback_duration = 1e9

    def time(self):
        return self.sim.now

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    def _run_once(self):
        sim = self.sim
        sim.steps += 1
        if sim.steps > sim.max_steps:
            raise SimHang(f"step budget of {sim.max_steps} exhausted at t={sim.now:.3f}")

        # drop cancelled timers
        sched = self._scheduled
        while sched and sched[0]._cancelled:
            h = heapq.heappop(sched)
            h._scheduled = False

        if not self._ready:
            nexttime = sched[0]._when if sched else None
            wake = sim.next_wake()
            cands = [t for t in (nexttime, wake) if t is not None]
            if not cands:
                if self._stopping:
                    return
                raise SimHang(f"deadlock at t={sim.now:.3f}: nothing is runnable")
            sim.advance(min(cands))

        # timers that are due become ready; ties are broken by the scheduler
        due = []
        while sched and sched[0]._when <= sim.now + 1e-12:
            h = heapq.heappop(sched)
            h._scheduled = False
            if not h._cancelled:
                due.append(h)
        while due:
            self._ready.append(due.pop(sim.chooser.choose(len(due))))

        # worker threads that are due compete with the loop for the processor
        runnable = sim.runnable_threads()
        if runnable:
            if self._ready:
                k = sim.chooser.choose(len(runnable) + 1)
                if k > 0:
                    sim.run_thread(runnable[k - 1])
                    return
            else:
                sim.run_thread(runnable[sim.chooser.choose(len(runnable))])
                return

        ntodo = len(self._ready)
        for _ in range(min(ntodo, 1)):
            handle = self._ready.popleft()
            if handle._cancelled:
                continue
            handle._run()


class Sim:
    _current: typing.Optional["Sim"] = None

    def __init__(
        self,
        seed: typing.Optional[int],
        *,
        decisions: typing.Optional[list[int]] = None,
        max_steps: int = 200_000,
    ):
        self.chooser = Chooser(seed, decisions)
        self.now = 1000.0
        self.t0 = self.now
        self.steps = 0
        self.max_steps = max_steps
        self.threads: list[SimThread] = []
        self.thread_no = 0
        self._baton = threading.Semaphore(0)
        self._tls = threading.local()
        self._main_ident = threading.get_ident()
        self.trace: list[str] = []
        self.notes: collections.Counter = collections.Counter()
        self.blocked_time = 0.0  # virtual time during which the loop could not run
        self.blocked_events: list[tuple[float, float, str]] = []
        self.running_thread: typing.Optional[SimThread] = None
        self.loop = SimLoop(self)
        self.fault_counts: collections.Counter = collections.Counter()
        self.loop_exceptions: list[str] = []
        self.loop.set_exception_handler(self._on_loop_exception)
        Sim._current = self

    # -- bookkeeping
    @classmethod
    def current(cls) -> "Sim":
        if cls._current is None:
            raise SimHarnessError("no simulation is active")
        return cls._current

    def _on_loop_exception(self, loop, context):
        self.loop_exceptions.append(str(context.get("message")))

    def event(self, text: str) -> None:
        self.trace.append(f"{self.now - self.t0:.4f} {text}")

    def note(self, name: str, n: int = 1) -> None:
        self.notes[name] += n

    def digest(self) -> str:
        return hashlib.sha256("\n".join(self.trace).encode("utf-8", "backslashreplace")).hexdigest()

    def on_loop_thread(self) -> bool:
        return getattr(self._tls, "thread", None) is None and threading.get_ident() == self._main_ident

    def on_sim_thread(self) -> bool:
        return getattr(self._tls, "thread", None) is not None

    # -- clock and threads
    def advance(self, t: float) -> None:
        if t > self.now:
            self.now = t

    def new_thread(self, pool: SimExecutor) -> SimThread:
        self.thread_no += 1
        t = SimThread(self, pool, self.thread_no)
        self.threads.append(t)
        return t

    def _conds(self) -> None:
        for t in self.threads:
            if t.cond is not None and t.cond():
                t.cond = None
                t.wake = self.now

    def next_wake(self) -> typing.Optional[float]:
        self._conds()
        w = [t.wake for t in self.threads if t.wake is not None]
        return min(w) if w else None

    def runnable_threads(self) -> list[SimThread]:
        self._conds()
        return [t for t in self.threads if t.wake is not None and t.wake <= self.now + 1e-12]

    def run_thread(self, t: SimThread) -> None:
        t.wake = None
        prev = self.running_thread
        self.running_thread = t
        if not t.started:
            t.started = True
            t.thread.start()
        t.go.release()
        self._baton.acquire()
        self.running_thread = prev

    def kill_thread(self, t: SimThread) -> None:
        if t.exited or not t.started:
            t.wake = None
            t.cond = None
            if t in self.threads:
                self.threads.remove(t)
            return
        t.kill = True
        t.wake = None
        t.cond = None
        t.go.release()
        self._baton.acquire()

    def _yield_baton(self, t: SimThread) -> None:
        self._baton.release()
        t.go.acquire()

    def drive_threads_until(self, done: typing.Callable[[], bool], why: str) -> None:
        "The loop thread is blocked in a synchronous wait: only worker threads make progress."
        start = self.now
        guard = 0
        while not done():
            guard += 1
            if guard > 100_000:
                raise SimHang(f"blocking wait never ends: {why}")
            runnable = self.runnable_threads()
            if not runnable:
                w = self.next_wake()
                if w is None:
                    raise SimHang(f"deadlock in blocking wait: {why}")
                self.advance(w)
                continue
            self.run_thread(runnable[self.chooser.choose(len(runnable))])
        if self.now > start:
            self.blocked_time += self.now - start
            self.blocked_events.append((start, self.now, why))

    def thread_sleep(self, d: float) -> None:
        "Blocking sleep in a (worker or loop) thread in virtual time."
        t = getattr(self._tls, "thread", None)
        if t is None:
            # a blocking call on the loop thread: time passes and nothing else of this loop runs
            start = self.now
            end = start + d
            while True:
                w = self.next_wake()
                if w is not None and w <= end:
                    self.advance(w)
                    r = self.runnable_threads()
                    if r:
                        self.run_thread(r[self.chooser.choose(len(r))])
                    continue
                break
            self.advance(end)
            if d > 0:
                self.blocked_time += d
                self.blocked_events.append((start, end, "blocking call on loop thread"))
            return
        if t.kill:
            raise ClientCrash()
        t.wake = self.now + d
        self._yield_baton(t)
        if t.kill:
            raise ClientCrash()

    def thread_wait(self, cond: typing.Callable[[], bool]) -> None:
        t = getattr(self._tls, "thread", None)
        if t is None:
            start = self.now
            self.drive_threads_until(cond, "blocking wait on loop thread")
            del start
            return
        if t.kill:
            raise ClientCrash()
        if cond():
            return
        t.cond = cond
        self._yield_baton(t)
        if t.kill:
            raise ClientCrash()

    # -- running
    def run(self, main: typing.Coroutine) -> typing.Any:
        try:
            return self.loop.run_until_complete(main)
        finally:
            pass

    def close(self) -> None:
        # cancel what is left, without letting it observe more of the world
        for t in list(self.threads):
            self.kill_thread(t)
        try:
            self.loop._ready.clear()
            self.loop._scheduled.clear()
            self.loop.close()
        except Exception:
            pass
        if Sim._current is self:
            Sim._current = None
