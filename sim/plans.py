"""Random plans without a registry, with a model kept independently of uberjob's graph."""
import concurrent.futures
import contextlib
import dataclasses
import queue
import time

import networkx
import uberjob
from sim import kernel


class Res:
    """The result of a call; compared by identity."""
    __slots__ = ("nid", "attempt", "__weakref__")

    def __init__(self, nid, attempt=0):
        self.nid = nid
        self.attempt = attempt

    def __repr__(self):
        return f"R{self.nid}"


class BaseBoom(BaseException):
    pass


class FalsyError(Exception):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class EqError(Exception):
    def __eq__(self, other):
        return True

    __hash__ = None


class SlotsError(Exception):
    """An exception whose str() and repr() work but that refuses to be copied or pickled."""

    def __init__(self, a, b):
        super().__init__(a, b)

    def __reduce__(self):
        raise TypeError("not picklable")


@dataclasses.dataclass(frozen=True)
class FrozenError(Exception):
    code: int


EXC_KINDS = ["value", "custom", "frozen", "falsy", "eq", "slots", "stopiter", "nested", "group", "known", "cause", "shared",
             "base", "sysexit", "genexit", "kbd"]
ONLY_EXCEPTION = EXC_KINDS[:EXC_KINDS.index("base")]
# (types that code between the call and the caller of run might be tempted to handle itself)
KNOWN = [queue.Empty, queue.Full, FileNotFoundError, PermissionError, TimeoutError, KeyError, IndexError, AttributeError,
         TypeError, OverflowError, NotImplementedError, MemoryError, RecursionError, AssertionError, StopAsyncIteration,
         networkx.HasACycle, networkx.NetworkXUnfeasible, concurrent.futures.CancelledError, BrokenPipeError, UnicodeError]
SHARED = ValueError("shared")


def make_exc(kind, i):
    if kind == "value":
        return ValueError(f"boom {i}")
    if kind == "custom":
        return type("Custom", (RuntimeError,), {})(f"boom {i}")
    if kind == "falsy":
        return FalsyError(f"boom {i}")
    if kind == "eq":
        return EqError(f"boom {i}")
    if kind == "slots":
        return SlotsError(i, "x")
    if kind == "frozen":
        return FrozenError(i)
    if kind == "stopiter":
        return StopIteration(i)
    if kind == "group":
        return ExceptionGroup(f"boom {i}", [ValueError(i), KeyError(i)])
    if kind == "known":
        return KNOWN[i % len(KNOWN) if type(i) is int else len(str(i)) % len(KNOWN)](f"boom {i}")
    if kind == "cause":
        e, c, x = RuntimeError(f"boom {i}"), ValueError(f"cause {i}"), KeyError(f"context {i}")
        e.__cause__, e.__context__ = c, x
        return e
    if kind == "shared":
        SHARED.__traceback__ = SHARED.__cause__ = SHARED.__context__ = None
        return SHARED
    if kind == "base":
        return BaseBoom(f"boom {i}")
    if kind == "sysexit":
        return SystemExit(i)
    if kind == "genexit":
        return GeneratorExit(i)
    if kind == "kbd":
        return KeyboardInterrupt(f"boom {i}")
    if kind == "nested":
        # a CallError of another plan, as raised by a nested uberjob.run
        p = uberjob.Plan()
        e = uberjob.CallError(p.call(len, "x"))
        e.__cause__ = ValueError(i)
        return e
    raise AssertionError(kind)


class N:
    __slots__ = ("id", "kind", "sym", "deps", "expr", "steps", "fails", "name", "scope", "fn", "callers", "retval",
                 "args", "kwargs", "attempts")

    def __init__(self, id, kind, sym, deps, expr=None):
        self.id = id
        self.kind = kind        # call, lit, gather, unpack, item
        self.sym = sym
        self.deps = set(deps)
        self.expr = expr
        self.steps = ()
        self.fails = ()          # exception kinds for the first attempts; () = success
        self.name = None
        self.scope = ()
        self.fn = None
        self.attempts = 0


class PlanWorld:
    keep_exc = True
    """Builds a plan; its functions record start / end / fail events in the simulator's log."""

    def __init__(self, ctx, *, n_max=14, p_lit=0.12, p_gather=0.15, p_unpack=0.08, p_dep=0.5, durations=True,
                 p_nested=0.25, fail_rate=None, retry_n=1, kinds=ONLY_EXCEPTION, scopes=False, recursive=False,
                 shape=None, min_calls=1, crowd=0.0, share_names=False):
        self.ctx = ctx
        g = self.g = ctx.gen
        # how many different names the functions have (None: every call has its own)
        self.names = g.choice([None, 1, 2, 4]) if share_names else None
        self.plan = uberjob.Plan()
        self.nodes = []
        self.calls = []
        self.running = set()
        self.on_start = None
        self.on_end = None
        self.exc = {}            # (nid, attempt) -> exception object raised
        self.started = []        # (nid)
        self.ended = set()
        self.failed = []         # nids in order of failure (each failing attempt)
        self.results = {}
        self.in_flight = 0
        self.max_in_flight = 0
        self.lock_free = True
        self.durations = durations
        self.time_scale = ctx.gen.weighted([(1, 14), (1000, 1), (20_000, 1), (400_000, 1)]) if durations else 1
        ctx.long = ctx.long or self.time_scale > 1
        self.anc = {}
        self.item_src = {}
        self.shape = shape or g.choice(["random", "chain", "fan_in", "fan_out", "layered", "diamonds", "wide", "tree"])
        self.p_nested = p_nested
        self.retry_n = retry_n
        n = g.small(min_calls, n_max) if g.bool(0.7) else g.int(min_calls, n_max)
        self.scope_pool = [("s",), ("s", 1), (), ("t", (1, 2)), (None,), ("s", "x")] if scopes else None
        if scopes and g.bool(0.3):
            self.scope_pool = g.sample(ODD_SCOPES, 4) + self.scope_pool[:3]
        fail_p = fail_rate if fail_rate is not None else 0.0
        for _ in range(n):
            self._grow(p_lit, p_gather, p_unpack, fail_p, kinds)
        while len(self.calls) < min_calls:
            self.new_call(fail_p, kinds)
        if p_dep and g.bool(0.7):
            k = g.small(0, max(1, len(self.nodes)))
            for _ in range(k):
                self.new_dep()
            if g.bool(0.15) and self.nodes:
                self.new_chain()
        if crowd and g.bool(crowd):
            if g.bool(0.8):
                self.new_crowd(fail_p, kinds)
            else:
                self.new_tower(fail_p, kinds)

    # -- generation
    def new_chain(self):
        """An order routed through a few nodes that do nothing."""
        g = self.g
        a = g.choice(self.nodes)
        for i in range(g.int(1, 4)):
            b = self.add("lit", self.plan.lit(("L", len(self.nodes))), (a.id,))
            self.plan.add_dependency(a.sym, b.sym)
            a = b
        c = self.new_call(args=[], kwargs={})
        self.plan.add_dependency(a.sym, c.sym)
        c.deps.add(a.id)

    def new_crowd(self, fail_p, kinds):
        """Very many similar calls, in one scope, and something that follows all of them."""
        g = self.g
        k = g.choice([33, 65, 70, 130, 260])
        base = g.choice(self.nodes) if self.nodes and g.bool(0.6) else None
        pool, self.scope_pool = self.scope_pool, self.scope_pool and [g.choice(self.scope_pool)]
        names, self.names = self.names, self.names and 1
        ids = [self.new_call(fail_p / k, kinds, args=[("node", base.id)] if base is not None else [], kwargs={}).id
               for _ in range(k)]
        self.scope_pool, self.names = pool, names
        how = g.choice(["args", "gather", "deps", "none"])
        if how == "args":
            self.new_call(fail_p, kinds, args=[("node", i) for i in ids], kwargs={})
        elif how == "gather":
            e = ("list", [("node", i) for i in ids])
            self.add("gather", self.plan.gather(self.build(e)), ids, e)
        elif how == "deps":
            self.new_sink()

    def new_tower(self, fail_p, kinds):
        """A chain of more calls than the interpreter allows nested calls."""
        g = self.g
        last = None
        how = g.choice(["args", "deps", "both"])
        k = g.choice([300, 1050, 1200])
        for _ in range(k):
            n = self.new_call(fail_p / k, kinds, args=[("node", last.id)] if last is not None and how != "deps" else [], kwargs={})
            n.steps = ()
            if last is not None and how != "args":
                self.plan.add_dependency(last.sym, n.sym)
                n.deps.add(last.id)
            last = n

    def pool(self):
        """Candidates for references, biased by the shape."""
        ns = self.nodes
        s = self.shape
        if not ns:
            return ns
        if s == "chain":
            return ns[-2:]
        if s == "fan_out":
            return ns[:2]
        if s == "wide":
            return ns[:1] if len(ns) < 3 else []
        if s == "layered":
            w = 4
            lo = max(0, (len(ns) // w - 1) * w)
            hi = max(1, (len(ns) // w) * w)
            return ns[lo:hi] or ns
        if s == "diamonds":
            return ns[-4:]
        return ns

    def pick(self):
        p = self.pool()
        return self.g.choice(p) if p else None

    def ref_expr(self, depth=0):
        """An argument expression; tuple-tagged so that it is independent of uberjob's own graph."""
        g = self.g
        n = self.pick()
        if n is None or g.bool(0.12):
            return ("const", g.int(0, 9))
        if depth < 3 and g.bool(self.p_nested):
            kind = g.choice(["list", "tuple", "dict", "set"])
            k = g.small(1, 3)
            if kind == "dict":
                return ("dict", [(("const", f"k{i}"), self.ref_expr(depth + 1)) for i in range(k)])
            if kind == "set":
                return ("set", [self.leaf() for _ in range(k)])
            return (kind, [self.ref_expr(depth + 1) for _ in range(k)])
        return ("node", n.id)

    def leaf(self):
        """A hashable expression."""
        c = [n for n in self.pool() if n.kind == "call" or n.kind == "lit" and n.expr is None]
        if not c:
            return ("const", self.g.int(0, 9))
        return ("node", self.g.choice(c).id)

    def build(self, e):
        k = e[0]
        if k == "node":
            return self.nodes[e[1]].sym
        if k == "const":
            return e[1]
        if k == "list":
            return [self.build(x) for x in e[1]]
        if k == "tuple":
            return tuple(self.build(x) for x in e[1])
        if k == "set":
            return {self.build(x) for x in e[1]}
        if k == "dict":
            return {self.build(a): self.build(b) for a, b in e[1]}
        raise AssertionError(k)

    def refs(self, e):
        k = e[0]
        if k == "node":
            return {e[1]}
        if k == "const":
            return set()
        if k == "dict":
            return set().union(*(self.refs(a) | self.refs(b) for a, b in e[1]), set())
        return set().union(*(self.refs(x) for x in e[1]), set())

    def _grow(self, p_lit, p_gather, p_unpack, fail_p, kinds):
        g = self.g
        what = g.weighted([("call", 1 - p_lit - p_gather - p_unpack), ("lit", p_lit), ("gather", p_gather),
                           ("unpack", p_unpack)])
        if what == "lit":
            self.add("lit", self.plan.lit(("L", len(self.nodes))), ())
        elif what == "gather":
            e = self.ref_expr()
            if e[0] in ("const", "node"):
                e = ("list", [e])
            refs = self.refs(e)
            kind = "gather" if refs else "lit"
            self.add(kind, self.plan.gather(self.build(e)), refs, e)
        elif what == "unpack":
            m = self.pick()
            if m is None:
                return self.new_call(fail_p, kinds)
            k = g.int(0, 3)
            src = ("tuple", [("node", m.id)] * k)
            items = self.plan.unpack(self.build(src), k)
            for i, it in enumerate(items):
                self.item_src[self.add("item", it, {m.id}).id] = {m.id}
        else:
            self.new_call(fail_p, kinds)

    def add(self, kind, sym, deps, expr=None):
        n = N(len(self.nodes), kind, sym, deps, expr)
        self.nodes.append(n)
        return n

    def lasting(self, ms):
        """Mostly milliseconds; in some worlds some steps take seconds, minutes or hours."""
        return ms if ms <= 0 or self.time_scale == 1 or self.g.bool(0.7) else ms * self.time_scale

    def steps(self):
        g = self.g
        if not self.durations:
            return ()
        return tuple(self.lasting(g.weighted([(0, 4), (-1, 2), (1, 2), (3, 1), (10, 1)])) for _ in range(g.int(0, 3)))

    def new_call(self, fail_p=0.0, kinds=ONLY_EXCEPTION, args=None, kwargs=None):
        g = self.g
        nid = len(self.nodes)
        if args is None:
            few = self.shape in ("chain", "tree", "fan_out")
            hi = 1 if few else 6 if self.shape == "fan_in" else 3
            args = [self.ref_expr() for _ in range(g.small(0, hi) if not few else g.int(0, 1))]
            kwargs = {f"k{i}": self.ref_expr() for i in range(g.small(0, 2))} if g.bool(0.3) else {}
            if args and g.bool(0.12):
                args.append(args[0])
        steps = self.steps()
        fails = ()
        if fail_p and g.bool(fail_p):
            # fail the first k attempts (k >= the retry limit: exhausted)
            k = 1 + g.int(0, self.retry_n)
            fails = tuple(g.choice(kinds) for _ in range(k))
        fn = self.make_fn(nid)
        scope = ()
        if self.scope_pool:
            scope = g.choice(self.scope_pool)
        pa = [self.build(e) for e in args]
        ka = {k: self.build(e) for k, e in kwargs.items()}
        with entered(self.plan, scope, g):
            sym = self.plan.call(fn, *pa, **ka)
        deps = set().union(*(self.refs(e) for e in args), *(self.refs(e) for e in kwargs.values()), set())
        n = self.add("call", sym, deps)
        assert n.id == nid
        n.steps, n.fails, n.fn, n.scope = steps, fails, fn, scope
        n.args, n.kwargs = args, kwargs
        self.calls.append(n)
        return n

    def new_dep(self):
        g = self.g
        if len(self.nodes) < 2:
            return
        b = g.int(1, len(self.nodes) - 1)
        a = g.int(0, b - 1)
        if self.nodes[b].sym is self.nodes[a].sym:
            return
        self.plan.add_dependency(self.nodes[a].sym, self.nodes[b].sym)
        self.nodes[b].deps.add(a)

    # -- the model
    def ancestors(self, nid):
        """Ids of all nodes nid transitively depends on (excluding itself)."""
        r = self.anc.get(nid)
        if r is None:
            r = set()
            todo = list(self.nodes[nid].deps)
            while todo:
                d = todo.pop()
                if d in r:
                    continue
                r.add(d)
                known = self.anc.get(d)
                if known is not None:
                    r |= known
                else:
                    todo.extend(self.nodes[d].deps)
            self.anc[nid] = r
        return r

    def call_ancestors(self, nid):
        return {a for a in self.ancestors(nid) if self.nodes[a].kind == "call"}

    def needed(self, out_expr):
        """Ids of calls the output depends on."""
        if out_expr is None:
            return set()
        ids = set()
        for r in self.refs(out_expr):
            ids.add(r)
            ids |= self.ancestors(r)
        return {i for i in ids if self.nodes[i].kind == "call"}

    def needed_nodes(self, out_expr):
        ids = set()
        for r in self.refs(out_expr) if out_expr is not None else ():
            ids.add(r)
            ids |= self.ancestors(r)
        return ids

    def exhausted(self, nid):
        return len(self.nodes[nid].fails) >= self.retry_n

    def sinks(self):
        """The nodes nothing depends on."""
        used = set().union(*(n.deps for n in self.nodes), set())
        return [n for n in self.nodes if n.id not in used]

    def new_sink(self):
        """A call ordered after everything else that consumes nothing."""
        before = self.sinks()
        n = self.new_call(args=[], kwargs={})
        for b in before:
            self.plan.add_dependency(b.sym, n.sym)
            n.deps.add(b.id)
        return n

    def draw_output(self, p_none=0.03):
        g = self.g
        if g.bool(p_none):
            return None
        k = g.choice(["list", "all", "last", "tuple", "node", "sinks"])
        if k == "sinks":
            return ("list", [("node", n.id) for n in self.sinks()])
        if k == "all":
            return ("list", [("node", n.id) for n in self.nodes])
        if k == "last":
            return ("node", self.nodes[-1].id)
        if k == "node":
            return ("node", g.choice(self.nodes).id)
        ids = g.sample(range(len(self.nodes)), g.int(1, 4))
        return (k, [("node", i) for i in ids])

    # -- execution
    def make_fn(self, nid):
        w = self

        def call_fn(*args, **kwargs):
            return w.execute(nid, args, kwargs)
        call_fn.__name__ = call_fn.__qualname__ = f"fn{nid % self.names if self.names else nid}"
        call_fn.__module__ = "user"
        return call_fn

    def execute(self, nid, args, kwargs):
        n = self.nodes[nid]
        sim = kernel.S.sim
        if sim is None:
            raise RuntimeError("a call ran outside a run")
        attempt = n.attempts
        n.attempts += 1
        sim.ev("start", nid)
        self.started.append(nid)
        self.running.add((nid, attempt))
        self.in_flight += 1
        if self.in_flight > self.max_in_flight:
            self.max_in_flight = self.in_flight
        ok = False
        try:
            if self.on_start is not None:
                self.on_start(n, args, kwargs)
            for s in n.steps:
                if s < 0:
                    sim.pause()
                elif s:
                    time.sleep(s / 1000)
                else:
                    sim.point()
            if attempt < len(n.fails):
                e = make_exc(n.fails[attempt], nid)
                if self.keep_exc:
                    self.exc[nid, attempt] = e
                raise e
            ok = True
        finally:
            self.in_flight -= 1
            self.running.discard((nid, attempt))
            if not sim.killing:
                if ok:
                    self.ended.add(nid)
                    sim.ev("end", nid)
                else:
                    self.failed.append(nid)
                    sim.ev("fail", nid, attempt)
        r = Res(nid, attempt)
        self.keep_result(nid, r)
        if self.on_end is not None:
            self.on_end(n)
        return r

    def keep_result(self, nid, r):
        self.results[nid] = r

    def describe(self):
        out = []
        for n in self.nodes:
            d = f"n{n.id}={n.kind}"
            if n.kind == "call":
                d += f"(args={n.args}, kwargs={n.kwargs})"
            if n.deps:
                d += f" deps={sorted(n.deps)}"
            if n.fails:
                d += f" fails={n.fails}"
            if n.steps:
                d += f" steps={n.steps}"
            out.append(d)
        return "; ".join(out)


def eval_expr(e, env):
    """Straightforward evaluation; env maps node id -> value."""
    k = e[0]
    if k == "node":
        return env[e[1]]
    if k == "const":
        return e[1]
    if k == "list":
        return [eval_expr(x, env) for x in e[1]]
    if k == "tuple":
        return tuple(eval_expr(x, env) for x in e[1])
    if k == "set":
        return {eval_expr(x, env) for x in e[1]}
    if k == "dict":
        return {eval_expr(a, env): eval_expr(b, env) for a, b in e[1]}
    raise AssertionError(k)


def draw_config(ctx, *, workers=None, max_errors=True, retry=True):
    g = ctx.gen
    cfg = {}
    cfg["max_workers"] = g.weighted([(1, 2), (2, 4), (3, 3), (4, 2), (8, 1), (None, 1)]) if workers is None else workers
    cfg["scheduler"] = g.choice([None, "default", "random"])
    if max_errors:
        cfg["max_errors"] = g.weighted([(0, 3), (1, 2), (2, 1), (5, 1), (None, 2)])
    return cfg


class Tag:
    """A scope value that is hashable and equatable and nothing else."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        return isinstance(other, Tag) and self.name == other.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"Tag({self.name!r})"

    def __len__(self):
        return 0

    def __str__(self):
        raise ValueError("no text for a tag")


# (equal values of different types are different scopes only if they are unequal: 1 == 1.0 == True)
ODD_SCOPES = [(Tag("a"),), (Tag("a"), Tag("b")), (frozenset({1, 2}),), ("", 0), (None, "s"), (b"s",), (1.5,), (2j,), ((),), (...,),
              ("s", "s"), ("s", "t", "s"), (None, None, None), (Tag("a"), Tag("a")), ("s",) * 40,
              ("s", Tag("a")), ("s", None), ((1, "a"),), (("a", 1),), ("é\ud800",), (float,)]


@contextlib.contextmanager
def entered(plan, scope, g):
    """The scope, entered in one block or in nested ones, perhaps after other blocks that were left by an exception."""
    how = g.weighted([("plain", 6), ("nested", 1), ("after", 1), ("inside", 1)]) if scope else "plain"
    with contextlib.ExitStack() as stack:
        if how == "after":
            with contextlib.suppress(LookupError), plan.scope("left"), plan.scope("early"):
                raise LookupError
        for part in [(x,) for x in scope] if how in ("nested", "inside") else [scope]:
            stack.enter_context(plan.scope(*part))
            if how == "inside":
                with contextlib.suppress(LookupError), plan.scope("left"):
                    raise LookupError
        yield


def given(ctx, cfg):
    """The configuration as the caller writes it: what equals a documented default may be left out."""
    g = ctx.gen
    return {k: v for k, v in cfg.items()
            if not ((v is None and k != "max_errors" or k == "max_errors" and v == 0) and g.bool(0.5))}


class RecordingObserver(uberjob.progress.ProgressObserver):
    def __init__(self, pts=None):
        self.events = []
        self.entered = 0
        self.exited = 0
        self.pts = pts

    def _ev(self, *e):
        sim = kernel.S.sim
        self.events.append(e)
        if sim is not None:
            sim.ev("obs", e[0], *(repr(x)[:60] for x in e[1:]))
            if self.pts:
                sim.point()

    def __enter__(self):
        self.entered += 1
        self._ev("enter")

    def __exit__(self, exc_type, exc_val, exc_tb):
        self.exited += 1
        self._ev("exit", exc_type.__name__ if exc_type else None)

    def increment_total(self, *, section, scope, amount):
        self._ev("total", section, scope, amount)

    def increment_running(self, *, section, scope):
        self._ev("running", section, scope)

    def increment_completed(self, *, section, scope):
        self._ev("completed", section, scope)

    def increment_failed(self, *, section, scope, exception):
        self._ev("failed", section, scope, exception)


def recording_progress(observers, pts=None):
    def create():
        o = RecordingObserver(pts)
        observers.append(o)
        return o
    return uberjob.progress.Progress(create)


def html_display(ctx):
    """The bundled HTML display; its output may take a while."""
    slow = ctx.gen.weighted([(0, 5), (0.3, 1), (8, 1), (45, 1)])
    if slow:
        ctx.note("each output of the display takes", slow)
        ctx.fault("slow_output")
    return uberjob.progress.html_progress(lambda b: time.sleep(slow) if slow else None)
