"""The simulator kernel: deterministic scheduling of real threads at intercepted primitives.

Only the lowest-level primitives are replaced (lock allocation, thread start, thread-exit sentinel, clocks,
random seeding); the stdlib's Thread, Condition, Event, Semaphore, Queue and concurrent.futures run for real on
top of them.  Exactly one simulated thread runs at any time; which one is decided by a recorded choice stream.

`install()` must be called before uberjob is imported.
"""
import _thread
import gc
import heapq
import os
import random
import sys
import threading
import time
import types

_real_allocate_lock = _thread.allocate_lock
_real_start_new_thread = _thread.start_new_thread
_real_set_sentinel = _thread._set_sentinel
_real_monotonic = time.monotonic
_real_time = time.time
_real_sleep = time.sleep
_RealRandom = random.Random

EPOCH_US = 1_700_000_000 * 1_000_000


def _us(seconds):
    """A wait of positive length must let the clock advance, or code that waits for the rest of a period would spin."""
    return max(int(round(seconds * 1e6)), 1) if seconds > 0 else 0


class SimKilled(BaseException):
    """Unwinds simulated threads when a run is abandoned; never visible to the oracles as an outcome."""


class State:
    sim = None


S = State()


class Task:
    __slots__ = ("id", "name", "baton", "status", "reason", "token", "pending", "waiting_on", "kills", "rank",
                 "sentinel", "thread", "unstarted_fn", "nointr", "killed_at")

    def __init__(self, id, name):
        self.id = id
        self.name = name
        self.baton = _real_allocate_lock()
        self.baton.acquire()
        self.status = "ready"
        self.reason = None
        self.token = 0
        self.pending = None
        self.waiting_on = None
        self.kills = 0
        self.killed_at = 0
        self.rank = 0
        self.sentinel = None
        self.thread = None
        self.unstarted_fn = None
        self.nointr = False

    def __repr__(self):
        return f"T{self.id}"


class Policy:
    """How the scheduler picks; only used in search mode (replay follows the recorded decisions)."""

    def __init__(self, mode="random", p=0.3, op_gap=0, depth=3):
        self.mode = mode
        self.p = p
        self.op_gap = op_gap
        self.depth = depth

    def __repr__(self):
        return f"{self.mode}(p={self.p},op_gap={self.op_gap},depth={self.depth})"


class Outcome:
    def __init__(self):
        self.value = None
        self.exc = None
        self.status = None        # 'returned' | 'raised' | 'deadlock' | 'steps'
        self.detail = None
        self.unfinished = []      # tasks still alive when the main function ended
        self.stuck = []           # of those, tasks that never finished afterwards
        self.end_seq = None       # log length when the main function ended
        self.sim_us = 0


class Sim:
    def __init__(self, sched, policy, *, max_steps=60000, start_us=EPOCH_US, rng_seed=0):
        self.sched = sched
        self.policy = policy
        self.max_steps = max_steps
        self.steps = 0
        self.decisions = 0
        self.switches = 0
        self.preemptions = 0
        self.now_us = start_us
        self.start_us = start_us
        self.tasks = []
        self.ready = []          # runnable tasks other than the current one
        self.current = None
        self.timers = []
        self.timer_seq = 0
        self.killing = False
        self.failure = None
        self.log = []
        self.on_idle = []
        self.thread_excs = []
        self.leaked = False
        self.start_faults = None  # callable(index)->bool
        self.starts = 0
        self.rng_seed = rng_seed
        self.rand_count = 0
        self.gap = 0
        self.in_main = False
        self.main_first = False
        self.main_first_after_interrupt = False
        self.delivered_at = None
        self.delivered_in_start = False
        self.nonblocking = 0
        self.trace_hash = 0
        self.sync_hook = None
        self.change_points = ()
        self.next_rank = 0
        self.icount = 0
        self.max_icount = 6_000_000

    # ---- logging (never draws, never switches)
    def ev(self, *what):
        self.log.append((self.current.id if self.current else -1, *what))
        return len(self.log)

    # ---- decisions
    def _pick(self, n, may_stay):
        """Index in [0, n). With may_stay, 0 is 'continue the current task'."""
        pol = self.policy
        ready = self.ready
        cur = self.current
        if self.main_first:
            # the interrupted main thread runs whenever it can
            main = self.tasks[0]
            if cur is main and may_stay:
                return 0
            if main in ready:
                return ready.index(main) + (1 if may_stay else 0)

        def pick(r):
            mode = pol.mode
            if mode == "random":
                if may_stay and r.random() >= pol.p:
                    return 0
                return r.randrange(n)
            if mode == "pct":
                if self.steps in self.change_points:
                    cur.rank = -self.steps
                best, bi = None, 0
                for i in range(n):
                    t = (cur if i == 0 else ready[i - 1]) if may_stay else ready[i]
                    if best is None or t.rank > best:
                        best, bi = t.rank, i
                return bi
            if mode == "rr":
                return 1 if may_stay and n > 1 else 0
            if mode == "lifo":
                if may_stay and r.random() >= pol.p:
                    return 0
                return n - 1
            return 0  # seq
        self.decisions += 1
        return self.sched.decide(n, pick)

    def _draw_gap(self):
        pol = self.policy
        if not pol.op_gap:
            self.gap = 0
            return
        self.gap = self.sched.decide(None, lambda r: 1 + int(r.expovariate(1.0 / pol.op_gap)))

    def _note(self, t):
        self.trace_hash = (self.trace_hash * 1000003 + t.id + 1 + 31 * len(self.log)) & 0xFFFFFFFFFFFF

    # ---- switching
    def _transfer(self, nxt):
        cur = self.current
        if nxt is cur:
            return
        self.switches += 1
        self._note(nxt)
        self.current = nxt
        nxt.baton.release()
        cur.baton.acquire()

    def _resumed(self, cur, interruptible=True):
        if self.killing:
            self._killed(cur)
        if cur.pending is not None and interruptible:
            exc, cur.pending = cur.pending, None
            self.delivered_at = self.ev("sigint-delivered")
            self.main_first = self.main_first_after_interrupt
            f = sys._getframe()
            while f is not None:
                if f.f_code is _START_CODE:
                    self.delivered_in_start = True
                f = f.f_back
            raise exc

    def _killed(self, cur):
        cur.kills += 1
        cur.killed_at = self.icount
        if cur.kills > 400:
            self._park_forever(cur)
        raise SimKilled()

    def _park_forever(self, cur):
        self.leaked = True
        cur.status = "leaked"
        if cur.id == 0:
            os.write(2, b"simulator: main task cannot be unwound\n")
            os._exit(70)
        self.current = self.tasks[0]
        self.tasks[0].baton.release()
        while True:
            cur.baton.acquire()

    def point(self, interruptible=True):
        """A scheduling point: the current task may be preempted here."""
        if self.killing:
            self._killed(self.current)
        self.steps += 1
        if self.steps > self.max_steps:
            self.fail("steps", f"no termination within {self.max_steps} scheduling points")
        cur = self.current
        if self.sync_hook is not None:
            self.sync_hook(cur)
        if self.ready:
            k = self._pick(len(self.ready) + 1, True)
            if k:
                nxt = self.ready.pop(k - 1)
                self.ready.append(cur)
                self.preemptions += 1
                self._transfer(nxt)
        self._resumed(cur, interruptible)

    def op_point(self):
        """Called per bytecode of the instrumented code (only while other tasks are ready)."""
        cur = self.current
        self.gap -= 1
        if self.gap:
            return
        self.steps += 1
        if self.steps > self.max_steps:
            self.fail("steps", f"no termination within {self.max_steps} scheduling points")
        k = self._pick(len(self.ready) + 1, True)
        self._draw_gap()
        if k:
            nxt = self.ready.pop(k - 1)
            self.ready.append(cur)
            self.preemptions += 1
            self._transfer(nxt)
            self._resumed(cur, interruptible=False)

    def block(self, obj, timeout_us=None, interruptible=True):
        """Block the current task until woken. Returns 'wake' or 'timeout'."""
        cur = self.current
        if self.killing:
            self._killed(cur)
        self.steps += 1
        if self.steps > self.max_steps:
            self.fail("steps", f"no termination within {self.max_steps} scheduling points")
        if interruptible and cur.pending is not None:
            self._resumed(cur)
        elif not interruptible:
            cur.nointr = True
        cur.status = "blocked"
        cur.waiting_on = obj
        cur.reason = None
        cur.token += 1
        if timeout_us is not None:
            self.timer_seq += 1
            heapq.heappush(self.timers, (self.now_us + max(0, int(timeout_us)), self.timer_seq, cur, cur.token))
        self._dispatch()
        cur.waiting_on = None
        cur.nointr = False
        self._resumed(cur, interruptible)
        return cur.reason

    def _dispatch(self):
        """Pick who runs next; the current task is not runnable."""
        while not self.ready:
            # everything is blocked: advance the clock
            while self.timers:
                t, _, task, token = self.timers[0]
                if task.status == "blocked" and task.token == token:
                    break
                heapq.heappop(self.timers)
            if not self.timers:
                self._deadlock()
                return
            for hook in self.on_idle:
                hook()
            t = self.timers[0][0]
            self.now_us = max(self.now_us, t)
            while self.timers and self.timers[0][0] <= self.now_us:
                _, _, task, token = heapq.heappop(self.timers)
                if task.status == "blocked" and task.token == token:
                    self.wake(task, "timeout")
        k = self._pick(len(self.ready), False)
        nxt = self.ready.pop(k)
        if nxt is self.current:
            return
        self._transfer(nxt)

    def wake(self, task, reason="wake"):
        if task.status == "blocked":
            task.status = "ready"
            task.reason = reason
            task.token += 1
            self.ready.append(task)

    def _describe(self):
        return "; ".join(f"{t.name}:{t.status}" + (f" on {t.waiting_on!r}" if t.waiting_on is not None else "")
                         for t in self.tasks if t.status != "done")

    def _deadlock(self):
        cur = self.current
        if self.in_main:
            self.fail("deadlock", "no runnable thread: " + self._describe(), from_block=True)
        else:
            # main has returned already: the remaining threads are stuck; give control back
            self._to_main_after_end(cur)

    def _to_main_after_end(self, cur):
        main = self.tasks[0]
        if cur is main:
            return
        self.current = main
        main.baton.release()
        if cur.status != "done":
            cur.baton.acquire()

    def fail(self, kind, detail, from_block=False):
        if self.failure is None:
            self.failure = (kind, detail)
        self.killing = True
        cur = self.current
        main = self.tasks[0]
        if cur is main:
            self._killed(cur)
        # hand over to the main task, which unwinds and then kills the rest
        if main in self.ready:
            self.ready.remove(main)
        main.status = "ready"
        self.current = main
        main.baton.release()
        if cur.status == "done":
            return
        cur.baton.acquire()
        self._killed(cur)

    # ---- time
    def sleep(self, seconds):
        self.block("sleep", timeout_us=_us(seconds))

    def pause(self):
        """Block until everything runnable has run (zero simulated time)."""
        self.block("pause", timeout_us=0)

    # ---- threads
    def spawn(self, fn, args, kwargs):
        idx = self.starts
        self.starts += 1
        if self.start_faults is not None and self.start_faults(idx):
            self.ev("thread-start-failed", idx)
            raise RuntimeError("can't start new thread")
        t = Task(len(self.tasks), f"T{len(self.tasks)}")
        self.next_rank += 1
        t.rank = self._rank_for(t.id)
        self.tasks.append(t)
        sim = self

        def carrier():
            t.baton.acquire()
            S_local.task = t
            try:
                try:
                    if not sim.killing:
                        fn(*args, **kwargs)
                except SimKilled:
                    pass
                except SystemExit:
                    pass
                except BaseException as e:  # threading.Thread handles its own; this is a raw thread
                    sim.thread_excs.append((t.id, e))
            finally:
                sim._finish(t)

        _real_start_new_thread(carrier, ())
        self.ready.append(t)
        return t

    def _rank_for(self, i):
        return ((i + 1) * 2654435761 + self.rng_seed) & 0xFFFF

    def _finish(self, t):
        t.status = "done"
        s = t.sentinel
        if s is not None and s._locked:
            s._release_raw(self)
        if self.killing:
            self.current = self.tasks[0]
            self.tasks[0].baton.release()
            return
        self._dispatch_done(t)

    def _dispatch_done(self, t):
        # like _dispatch, but the current task is finished
        if not self.in_main and not self.ready and not self._live_timers():
            self._to_main_after_end(t)
            return
        self._dispatch()

    def _live_timers(self):
        return any(task.status == "blocked" and task.token == token for _, _, task, token in self.timers)

    def interrupt(self, exc):
        """Deliver a signal-handler exception to the main task."""
        main = self.tasks[0]
        main.pending = exc
        self.ev("sigint-sent")
        self.main_first = self.main_first_after_interrupt
        if main.status == "blocked" and not main.nointr:
            self.wake(main, "intr")

    # ---- running
    def run(self, fn):
        assert S.sim is None
        out = Outcome()
        main = Task(0, "main")
        main.rank = self._rank_for(0)
        self.tasks.append(main)
        self.current = main
        main.status = "running"
        if self.policy.mode == "pct":
            horizon = 400
            r = _RealRandom(self.rng_seed)
            self.change_points = {r.randrange(horizon) for _ in range(self.policy.depth)}
        S.sim = self
        S_local.task = main
        prev_state = random.getstate()
        random.seed(self.rng_seed)
        self.in_main = True
        self._draw_gap()
        try:
            try:
                out.value = fn()
                out.status = "returned"
            except SimKilled:
                out.status, out.detail = self.failure
            except BaseException as e:
                out.exc = e
                out.status = "raised"
            self.in_main = False
            if self.failure is not None and out.status not in ("deadlock", "steps"):
                # killed, but the code under test swallowed the unwinding
                out.status, out.detail = self.failure
            out.end_seq = len(self.log)
            main.pending = None
            if not self.killing:
                out.unfinished = [t for t in self.tasks[1:] if t.status != "done"]
                if out.unfinished:
                    self._drain(out)
            out.stuck = [t for t in self.tasks[1:] if t.status != "done"]
            self._kill_rest()
        finally:
            out.sim_us = self.now_us - self.start_us
            S.sim = None
            random.setstate(prev_state)
        return out

    def _drain(self, out):
        """After main ended: let whatever is left run to see what it still does."""
        main = self.tasks[0]
        main.status = "after"
        self.max_steps = self.steps + 5000
        try:
            if self.ready or self._live_timers():
                self._dispatch()
        except SimKilled:
            pass

    def _kill_rest(self):
        self.killing = True
        main = self.tasks[0]
        for t in self.tasks[1:]:
            guard = 0
            while t.status not in ("done", "leaked"):
                self.current = t
                t.baton.release()
                main.baton.acquire()
                guard += 1
                if guard > 5:
                    self.leaked = True
                    break


S_local = threading.local()
_START_CODE = threading.Thread.start.__code__


# ------------------------------------------------------------------ primitives

class SimLock:
    __slots__ = ("_locked", "_waiters", "__weakref__")

    def __init__(self):
        self._locked = False
        self._waiters = None

    def acquire(self, blocking=True, timeout=-1, _intr=True):
        sim = S.sim
        if sim is None:
            if self._locked:
                if not blocking or timeout >= 0:
                    return False
                raise RuntimeError("simulator: deadlock outside a simulated run")
            self._locked = True
            return True
        if not blocking:
            if sim.killing:
                sim._killed(sim.current)
            sim.nonblocking += 1
            if sim.nonblocking % 64 == 0:
                sim.point()
            if self._locked:
                return False
            self._locked = True
            return True
        sim.point(_intr)
        if not self._locked:
            self._locked = True
            return True
        deadline = None if timeout is None or timeout < 0 else sim.now_us + _us(timeout)
        cur = sim.current
        while self._locked:
            if deadline is not None and sim.now_us >= deadline:
                return False
            if self._waiters is None:
                self._waiters = []
            self._waiters.append(cur)
            try:
                sim.block(self, None if deadline is None else deadline - sim.now_us, _intr)
            finally:
                if self._waiters and cur in self._waiters:
                    self._waiters.remove(cur)
        self._locked = True
        return True

    def _release_raw(self, sim):
        self._locked = False
        w = self._waiters
        if w:
            self._waiters = None
            for t in w:
                sim.wake(t)

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        sim = S.sim
        if sim is None:
            self._locked = False
            return
        self._release_raw(sim)
        if sim.killing:
            return
        # a preemption right after the release; not an interruptible operation
        if sim.ready:
            sim.steps += 1
            k = sim._pick(len(sim.ready) + 1, True)
            if k:
                cur = sim.current
                nxt = sim.ready.pop(k - 1)
                sim.ready.append(cur)
                sim.preemptions += 1
                sim._transfer(nxt)
                sim._resumed(cur, interruptible=False)

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = None

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def __repr__(self):
        return "<lock>"


def _sim_start_new_thread(fn, args=(), kwargs=None):
    sim = S.sim
    if sim is None:
        return _real_start_new_thread(fn, args, kwargs or {})
    t = sim.spawn(fn, args, kwargs or {})
    return 100000 + t.id


def _sim_set_sentinel():
    sim = S.sim
    if sim is None:
        return _real_set_sentinel()
    lock = SimLock()
    sim.current.sentinel = lock
    return lock


def _sim_time():
    s = S.sim
    return _real_time() if s is None else s.now_us / 1e6


def _sim_time_ns():
    s = S.sim
    return _real_time_ns() if s is None else s.now_us * 1000


def _sim_monotonic():
    s = S.sim
    return _real_monotonic() if s is None else s.now_us / 1e6 - 1_600_000_000


def _sim_monotonic_ns():
    s = S.sim
    return _real_monotonic_ns() if s is None else s.now_us * 1000 - 1_600_000_000 * 10 ** 9


def _sim_sleep(seconds):
    s = S.sim
    if s is None:
        return _real_sleep(seconds)
    if seconds < 0:
        raise ValueError("sleep length must be non-negative")
    s.point()
    s.sleep(seconds)


_real_time_ns = time.time_ns
_real_monotonic_ns = time.monotonic_ns


class SimRandom(_RealRandom):
    def __new__(cls, *a, **k):
        return super().__new__(cls)

    def __init__(self, x=None):
        s = S.sim
        if x is None and s is not None:
            s.rand_count += 1
            x = s.rng_seed * 7919 + s.rand_count
        super().__init__(x)


_installed = False


def _sim_excepthook(args, *, _orig=threading.excepthook):
    sim = S.sim
    if sim is not None:
        if not isinstance(args.exc_value, SimKilled):
            sim.thread_excs.append((sim.current.id, args.exc_value))
        return
    _orig(args)


def install():
    """Replace the primitives. Call before importing uberjob (and queue, concurrent.futures)."""
    global _installed
    if _installed:
        return
    _installed = True
    import queue
    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading._CRLock = None
    threading._start_new_thread = _sim_start_new_thread
    threading._set_sentinel = _sim_set_sentinel
    threading._time = _sim_monotonic
    threading.excepthook = _sim_excepthook
    _thread.start_new_thread = _sim_start_new_thread
    # locks that the stdlib modules created at import time
    threading._active_limbo_lock = threading.RLock()
    threading._shutdown_locks_lock = SimLock()
    import concurrent.futures.thread as cft
    cft._global_shutdown_lock = SimLock()

    # Re-acquiring a condition's lock after a wait is not interruptible here: an exception raised at that point
    # makes CPython's own Condition.wait fail with "release unlocked lock", whatever the caller does.
    def _acquire_restore(self, state, _orig=threading.Condition._acquire_restore):
        if isinstance(self._lock, SimLock):
            self._lock.acquire(_intr=False)
        else:
            _orig(self, state)
    threading.Condition._acquire_restore = _acquire_restore

    def _rlock_acquire_restore(self, state):
        self._block.acquire(_intr=False)
        self._count, self._owner = state
    threading._PyRLock._acquire_restore = _rlock_acquire_restore
    queue.time = _sim_monotonic
    queue.SimpleQueue = queue._PySimpleQueue
    time.time = _sim_time
    time.time_ns = _sim_time_ns
    time.monotonic = _sim_monotonic
    time.monotonic_ns = _sim_monotonic_ns
    time.perf_counter = _sim_monotonic
    time.perf_counter_ns = _sim_monotonic_ns
    time.sleep = _sim_sleep
    random.Random = SimRandom
    os.cpu_count_real = os.cpu_count
    os.cpu_count = lambda: 4


# ------------------------------------------------------------------ bytecode preemption

TOOL = 3


def collect_codes(root):
    """Every code object defined under `root` that is reachable from a live function."""
    codes = set()

    def add(code):
        if code in codes:
            return
        codes.add(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c)
    gc.collect()
    for o in gc.get_objects():
        if type(o) is types.FunctionType and o.__code__.co_filename.startswith(root):
            add(o.__code__)
    return codes


def instrument(codes):
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "uberjob-sim")
    ev = mon.events.INSTRUCTION

    def cb(code, offset):
        sim = S.sim
        if sim is None:
            return
        sim.icount += 1
        if sim.killing:
            cur = sim.current
            if not cur.kills or sim.icount - cur.killed_at > 20_000:
                sim._killed(cur)     # (again when the first was swallowed, as in a generator's close)
            elif sim.icount > sim.max_icount + 500_000:
                sim._park_forever(cur)
            return
        if sim.icount > sim.max_icount:
            sim.fail("steps", f"no termination within {sim.max_icount} bytecode instructions of uberjob code")
        if sim.gap and sim.ready:
            sim.op_point()
    mon.register_callback(TOOL, ev, cb)
    for c in codes:
        mon.set_local_events(TOOL, c, ev)


# ------------------------------------------------------------------ deterministic node hashing

class NodeHash:
    table = {}
    keep = []
    salt = 0

    @classmethod
    def reset(cls, salt):
        cls.table = {}
        cls.keep = []
        cls.salt = salt


def patch_node_hash(Node):
    if Node.__hash__ is not object.__hash__:
        return False

    def __new__(cls, *a, **k):
        self = object.__new__(cls)
        n = len(NodeHash.keep)
        NodeHash.table[id(self)] = ((n * 2654435761) ^ (NodeHash.salt * 40503)) & 0x7FFFFFFF
        NodeHash.keep.append(self)
        return self

    def __hash__(self):
        h = NodeHash.table.get(id(self))
        return object.__hash__(self) if h is None else h

    Node.__new__ = __new__
    Node.__hash__ = __hash__
    return True
