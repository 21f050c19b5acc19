"""C13: run, dry_run and render never modify the Plan or Registry they are given; copies are independent."""
import copy
import threading

import nxv
import uberjob
from sim import fw, hist, kernel, plans, regs
from uberjob.graph import Call, Dependency, Literal

PROP = "C13"
QUICK = 5000
THOROUGH = 500000
RULE = ("Random plans with and without a registry put through random sequences of runs (succeeding, failing in the stale "
        "check or in the run, cut, interrupted, dying), dry runs whose result is then edited, transform_physical "
        "callbacks that edit the physical plan or raise, rejected runs, renders (predicate, level, tuple and graph "
        "inputs), runs inside an open plan.scope, nested runs, edits of copies, and runs of one plan from 2-4 threads at "
        "once; a structural snapshot is compared after each step and at sampled points inside runs, and the plan must "
        "keep computing the same thing.")
REAL = fw.REAL_BASE + ["uberjob.render and nxv up to the GraphViz process"]
STUB = fw.STUB_BASE + ["value stores (in-memory, logical clock)", "the GraphViz process (raw format, or a stand-in that "
                       "edits the graph it is handed)"]
ASSUMPTIONS = ["user callbacks edit only the graph they are handed, never the Node objects in it",
               "the order of nodes and of edges in the graph is not part of its identity"]


# ------------------------------------------------------------------ snapshots

def frames(f):
    out = []
    while f is not None and len(out) < 50:
        out.append((type(f).__name__, getattr(f, "name", None), getattr(f, "path", None), getattr(f, "line", None)))
        f = getattr(f, "outer", None)
    return tuple(out)


class Snap:
    """The structure of a plan and a registry, holding on to every object so that identities stay comparable."""

    def __init__(self, plan, registry=None):
        self.plan, self.registry = plan, registry
        self.graph = plan.graph
        self.nodes = [(u, self.node(u), dict(d)) for u, d in plan.graph.nodes(data=True)]
        self.ids = {id(u) for u, _, _ in self.nodes}
        self.edges = {}
        for u, v, k, d in plan.graph.edges(keys=True, data=True):
            self.edges.setdefault((id(u), id(v)), []).append((repr(k), dict(d)))
        for l in self.edges.values():
            l.sort(key=lambda e: e[0])
        self.gattr = dict(plan.graph.graph)
        self.scope = getattr(plan, "_scope", None)
        self.reg = None if registry is None else self.entries(registry)

    @staticmethod
    def node(u):
        return (type(u), u.scope, getattr(u, "fn", None), getattr(u, "value", None), frames(u.stack_frame))

    @staticmethod
    def entries(r):
        m = getattr(r, "mapping", {})
        return [(u, r[u], getattr(m.get(u), "is_source", None), frames(getattr(m.get(u), "stack_frame", None)))
                for u in r.keys()]

    def diff(self, other):
        """What differs, or None."""
        if self.ids != other.ids:
            return f"{len(other.ids - self.ids)} nodes were added and {len(self.ids - other.ids)} removed"
        mine = {id(u): (n, d) for u, n, d in self.nodes}
        for u, n, d in other.nodes:
            n0, d0 = mine[id(u)]
            for what, a, b in zip(("type", "scope", "function", "value", "stack frame"), n0, n):
                same = a is b if what in ("function", "value", "type") else a == b
                if not same:
                    return f"the {what} of {describe(u)} changed from {a!r} to {b!r}"
            if d != d0:
                return f"the attributes of {describe(u)} changed from {d0!r} to {d!r}"
        if self.edges != other.edges:
            for k in set(self.edges) | set(other.edges):
                a, b = self.edges.get(k, []), other.edges.get(k, [])
                if a != b:
                    names = {id(u): describe(u) for u, _, _ in self.nodes}
                    return f"the edges from {names.get(k[0])} to {names.get(k[1])} changed from {a} to {b}"
        if self.gattr != other.gattr:
            return f"the graph attributes changed from {self.gattr} to {other.gattr}"
        if self.scope != other.scope:
            return f"the current scope changed from {self.scope} to {other.scope}"
        if self.reg is not None:
            a, b = self.reg, other.reg
            if [id(e[0]) for e in a] != [id(e[0]) for e in b]:
                return f"the registry went from {len(a)} to {len(b)} entries or other nodes"
            for e, f in zip(a, b):
                if e[1] is not f[1] or e[2] != f[2] or e[3] != f[3]:
                    return f"the registry entry of {describe(e[0])} changed from {e[1:]} to {f[1:]}"
        return None


def describe(u):
    if isinstance(u, Call):
        return f"Call({getattr(u.fn, '__name__', u.fn)})"
    if isinstance(u, Literal):
        return f"Literal({u.value!r:.40})"
    return repr(u)


# ------------------------------------------------------------------ worlds

class World:
    """What the steps below need from either kind of plan."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.fails = False


class PlanSide(World):
    registry = None

    def __init__(self, ctx):
        super().__init__(ctx)
        g = ctx.gen
        self.w = plans.PlanWorld(ctx, n_max=g.choice([3, 8, 16]), fail_rate=0.1 if g.bool(0.4) else None, scopes=True,
                                 p_lit=0.15, p_gather=0.2)
        self.plan = self.w.plan
        self.fresh = None

    def go(self, main, before=None):
        w, ctx = self.w, self.ctx
        for n in w.calls:
            n.attempts = 0
        w.ended.clear(), w.failed.clear(), w.started.clear(), w.running.clear()
        w.on_start = None
        sim = ctx.new_sim()
        if before:
            before(sim)
        return ctx.run(main, sim=sim)

    def args(self, output):
        return dict(output=None if output is None else self.w.build(output), progress=False,
                    **plans.draw_config(self.ctx))

    def watch(self, fn):
        self.w.on_start = lambda n, a, k: fn()

    def draw_output(self):
        return self.w.draw_output()

    def right(self, output, value):
        if output is None:
            return value is None
        return shape(value) == shape(plans.eval_expr(output, self.Env(self.w)))

    class Env:
        def __init__(self, w):
            self.w = w

        def __getitem__(self, i):
            n = self.w.nodes[i]
            if n.kind == "call":
                return plans.Res(i)
            if n.kind == "item":
                return self[next(iter(self.w.item_src[i]))]
            if n.expr is None:
                return ("L", i)
            return plans.eval_expr(n.expr, self)

    def end_check(self, output, out, what):
        if not self.right(output, out.value):
            self.ctx.fail("meaning", f"{what} returned {out.value!r:.300} instead of the plan's value")

    def may_fail(self):
        return any(n.fails for n in self.w.calls)


class RegSide(World):
    def __init__(self, ctx):
        super().__init__(ctx)
        g = ctx.gen
        self.w = regs.RegWorld(ctx, n_max=g.choice([3, 8, 14]), p_reg=g.choice([0.3, 0.6, 0.9]), scopes=True,
                               p_dep=g.choice([0, 1]), odd_sources=0.3)
        self.plan, self.registry = self.w.plan, self.w.registry
        self.h = hist.History(ctx, self.w)

    def go(self, main, before=None):
        w, ctx = self.w, self.ctx
        w.reset()
        sim = ctx.new_sim(start_us=max(w.now_us, w.last_mtime) + 1)
        if before:
            before(sim)
        r = ctx.run(main, sim=sim)
        w.now_us = sim.now_us
        return r

    def args(self, output):
        f = self.h.fresh
        return dict(output=None if output is None else self.w.build(output), progress=False, registry=self.registry,
                    fresh_time=None if f is None else self.w.time_value(f, 0), **regs.draw_config(self.ctx))

    def watch(self, fn):
        self.w.on_op = lambda k, i: fn()

    def draw_output(self):
        return self.w.draw_output()

    def right(self, output, value):
        return output is None and value is None or self.w.output_matches(output, value)

    def end_check(self, output, out, what):
        hist.check_correct(self.ctx, self.w, output, out, what)

    def may_fail(self):
        return False


def shape(v):
    if isinstance(v, plans.Res):
        return ("R", v.nid)
    if isinstance(v, (set, frozenset)):
        return ("set", frozenset(map(shape, v)))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(map(shape, v)))
    if isinstance(v, dict):
        return ("dict", tuple((shape(a), shape(b)) for a, b in v.items()))
    return v


# ------------------------------------------------------------------ the case

def case(ctx):
    g = ctx.gen
    side = PlanSide(ctx) if g.bool(0.35) else RegSide(ctx)
    plan = side.plan
    ctx.note("plan", side.w.describe())
    decorate(ctx, plan)
    base = Snap(plan, side.registry)

    def verify(what):
        ctx.count("snapshots_compared")
        d = base.diff(Snap(plan, side.registry))
        if plan.graph is not base.graph:
            d = d or "plan.graph is another object"
        if d:
            ctx.fail("modified", f"{what} modified the caller's plan or registry: {d}")
    for i in range(g.int(1, 5)):
        if isinstance(side, RegSide) and g.bool(0.5):
            side.h.perturb()
        step = g.weighted([(run_mode, 5), (dry, 3), (transform, 2), (draw, 2), (in_scope, 1), (concurrent, 4),
                           (copies, 2), (rejected, 0.5), (nested, 1), (grow, 1)])
        ctx.count("step:" + step.__name__)
        what = step(ctx, side, base, verify)
        if step is grow:
            base = Snap(plan, side.registry)
        verify(what)
    # the plan still means the same thing
    if isinstance(side, RegSide):
        output = side.draw_output()
        sim, out = side.h.run("ok", output)
    else:
        for n in side.w.calls:
            n.fails = ()
        output = side.draw_output()
        a = side.args(output)
        sim, out = side.go(lambda: uberjob.run(plan, **a))
    if regs.hang(out):
        ctx.count("hang_left_to_C07")
        return
    if out.status != "returned":
        ctx.fail("meaning", f"the last run, in which nothing fails, raised {out.exc!r} from {out.exc.__cause__!r}")
    side.end_check(output, out, "the last run")
    verify("the last run")


def decorate(ctx, plan):
    """Attributes such as users and networkx algorithms put on graphs."""
    g = ctx.gen
    if not g.bool(0.3):
        return
    plan.graph.graph["name"] = "p"
    for u in list(plan.graph.nodes()):
        if g.bool(0.4):
            plan.graph.nodes[u]["color"] = g.int(0, 9)
    for u, v, k in list(plan.graph.edges(keys=True)):
        if g.bool(0.3):
            plan.graph.edges[u, v, k]["weight"] = g.int(0, 9)


def spy(ctx, side, base, verify):
    """Compare at some of the points inside a run."""
    g = ctx.gen
    if not g.bool(0.5):
        return
    every = g.choice([1, 3])
    st = [0]

    def check():
        st[0] += 1
        if st[0] % every == 0 and st[0] < 40 and kernel.S.sim is not None and not kernel.S.sim.killing:
            d = base.diff(Snap(side.plan, side.registry))
            if d:
                side.seen = d
    side.watch(check)


def finish_spy(ctx, side, what):
    d = getattr(side, "seen", None)
    if d:
        ctx.fail("modified-during", f"during {what} the caller's plan or registry was modified: {d}")


def run_mode(ctx, side, base, verify):
    g = ctx.gen
    output = side.draw_output()
    if isinstance(side, RegSide):
        mode = g.weighted(hist.MODES)
        ctx.note("step run", mode)
        side.h.run(mode, output)
        return f"a run ({mode})"
    a = side.args(output)
    ki = g.small(0, 10) if g.bool(0.3) else None
    kill = ki is not None and g.bool(0.5)
    ctx.note("step run", "kill" if kill else "interrupt" if ki is not None else "plain", "at", ki)
    st = [0]

    def check():
        st[0] += 1
        if st[0] == (ki or 0) + 1 and ki is not None:
            if kill:
                ctx.fault("crash")
                kernel.S.sim.fail("crash", "simulated process death")
                raise kernel.SimKilled
            ctx.fault("sigint")
            kernel.S.sim.interrupt(KeyboardInterrupt("simulated Ctrl-C"))
    sim, out = side.go(lambda: uberjob.run(side.plan, **a),
                       before=lambda sim: side.watch(check) if ki is not None else spy(ctx, side, base, verify))
    if any(n.fails for n in side.w.calls):
        ctx.fault("call_raises")
    finish_spy(ctx, side, "a run")
    return "a run"


def vandalise(ctx, plan):
    """Edit a plan that is ours to edit: its graph's structure and attributes, but no Node object."""
    g = ctx.gen
    gr = plan.graph
    ns = sorted(gr.nodes(), key=describe)
    for u in ns:
        if g.bool(0.3):
            gr.nodes[u]["color"] = "red"
    es = list(gr.edges(keys=True))
    for i, (u, v, k) in enumerate(es):
        r = g.int(0, 4)
        if r == 0:
            gr.remove_edge(u, v, k)
        elif r == 1:
            gr.edges[u, v, k]["weight"] = "red"
    if ns and g.bool(0.5):
        u = g.choice(ns)
        if u in gr:
            gr.remove_node(u)
    gr.graph["name"] = "vandalised"
    for _ in range(g.int(0, 3)):
        with plan.scope("extra"):
            c = plan.call(len, "x")
        if len(gr) > 1 and g.bool(0.5):
            o = g.choice(sorted(gr.nodes(), key=describe))
            plan.add_dependency(o, c)
    if g.bool(0.1):
        gr.clear()


def dry(ctx, side, base, verify):
    g = ctx.gen
    output = side.draw_output()
    a = side.args(output)
    ctx.note("step dry run", "output", output)
    with_prog = g.bool(0.3)
    if with_prog:
        a["progress"] = plans.recording_progress([])
    writes = dict(side.w.state) if isinstance(side, RegSide) else None
    in_sc = g.bool(0.3)

    def main():
        if in_sc:
            with side.plan.scope("outer", 1):
                return uberjob.run(side.plan, dry_run=True, **a)
        return uberjob.run(side.plan, dry_run=True, **a)
    sim, out = side.go(main, before=None if in_sc else lambda sim: spy(ctx, side, base, verify))
    finish_spy(ctx, side, "a dry run")
    if out.status == "returned":
        verify("a dry run")
        if writes is not None and writes != side.w.state:
            ctx.fail("dry-effect", "a dry run changed stored values")
        phys, node = out.value
        if phys is side.plan or phys.graph is side.plan.graph:
            ctx.fail("shared", "a dry run returned the caller's own plan")
        vandalise(ctx, phys)
        verify("editing the physical plan that a dry run returned")
        ctx.count("physical_plans_edited")
    elif not regs.hang(out):
        ctx.fail("dry-raised", f"a dry run, in which nothing fails, raised {out.exc!r} from {out.exc.__cause__!r}")
    return "a dry run"


def transform(ctx, side, base, verify):
    g = ctx.gen
    output = side.draw_output()
    a = side.args(output)
    what = g.choice(["edit", "raise", "copy", "extra"])
    ctx.note("step transform_physical", what)
    seen = []

    def t(phys, node):
        seen.append(base.diff(Snap(side.plan, side.registry)))
        if phys is side.plan or phys.graph is side.plan.graph:
            seen.append("transform_physical was handed the caller's own plan")
        if what == "raise":
            vandalise(ctx, phys)
            raise ValueError("transform")
        if what == "copy":
            return phys.copy(), node
        if what == "extra":
            c = phys.call(len, "x")
            for u in list(phys.graph.nodes()):
                if u is not c and type(u) is Call and g.bool(0.3):
                    phys.add_dependency(c, u)
            return phys, node
        vandalise(ctx, phys)
        if node is not None and node not in phys.graph:
            phys.graph.add_node(node)
        return phys, node
    dry_too = g.bool(0.3)
    sim, out = side.go(lambda: uberjob.run(side.plan, transform_physical=t, dry_run=dry_too, **a))
    for d in seen:
        if d:
            ctx.fail("modified-during", f"when transform_physical ran: {d}")
    if what in ("copy", "extra") and out.status == "returned" and not dry_too and not side.right(output, out.value):
        ctx.fail("meaning", f"a run with a neutral transform_physical returned {out.value!r:.200}")
    if isinstance(side, RegSide) and what == "edit":
        # the edited physical plan may have stored anything
        for n in side.w.nodes:
            if n.sid is not None and n.kind != "src":
                side.w.state.pop(n.sid, None)
    return "a run with transform_physical"


def draw(ctx, side, base, verify):
    g = ctx.gen
    level = g.choice([None, None, 0, 1, 2])
    salt = g.int(0, 6)

    def pred(u, d):
        if g.bool(0.2):
            d["color"] = "seen"
        return (len(u.scope) + salt) % 3 != 0
    predicate = pred if g.bool(0.4) else None
    arg = g.choice(["plan", "graph", "tuple", "tuple-none"])
    n = sorted(side.plan.graph.nodes(), key=describe)
    given = {"plan": side.plan, "graph": side.plan.graph, "tuple": (side.plan, n[0] if n else None),
             "tuple-none": (side.plan, None)}[arg]
    real = g.bool(0.5)
    ctx.note("step render", arg, "level", level, "predicate", predicate is not None, "nxv", real)
    orig = nxv.render

    def stand_in(graph, style, **kw):
        if graph is side.plan.graph:
            raise plans.BaseBoom("own graph")
        graph.clear()
        return b""
    sim = ctx.new_sim()

    def main():
        nxv.render = orig if real else stand_in
        try:
            return uberjob.render(given, registry=side.registry if g.bool(0.7) else None, predicate=predicate,
                                  level=level, format="raw")
        finally:
            nxv.render = orig
    sim, out = ctx.run(main, sim=sim)
    if out.status == "raised":
        if isinstance(out.exc, plans.BaseBoom):
            ctx.fail("shared", "render handed the caller's own graph to the renderer")
        ctx.count("render_raised:" + type(out.exc).__name__)
    return f"render of the {arg} (level={level})"


def in_scope(ctx, side, base, verify):
    """The caller has a scope open, possibly in another thread than the one that runs."""
    g = ctx.gen
    output = side.draw_output()
    a = side.args(output)
    other = g.bool(0.5)
    ctx.note("step run inside a scope", "from another thread" if other else "")
    got = {}

    def go():
        try:
            got["v"] = uberjob.run(side.plan, **a)
        except Exception as e:
            got["e"] = e
        c = side.plan.copy()
        got["copy_scope"] = c.call(len, "x").scope
        with c.scope("inner"):
            got["copy_inner"] = c.call(len, "x").scope

    def main():
        with side.plan.scope("outer", 2):
            if other:
                t = threading.Thread(target=go)
                t.start()
                t.join()
            else:
                go()
            got["scope"] = getattr(side.plan, "_scope", ("outer", 2))
    sim, out = side.go(main)
    if out.status == "deadlock":
        ctx.fail("blocked", f"running a plan or using a copy of it blocks while a scope of the plan is open: {out.detail}")
    if out.status == "raised":
        raise out.exc
    if "e" in got:
        if not (side.may_fail() and isinstance(got["e"], uberjob.CallError)):
            ctx.fail("meaning", f"a run inside plan.scope raised {got['e']!r} from {got['e'].__cause__!r}")
    elif not side.right(output, got["v"]):
        ctx.fail("meaning", f"a run inside plan.scope returned {got['v']!r:.200}")
    if got["scope"] != ("outer", 2):
        ctx.fail("scope", f"the open scope became {got['scope']}")
    if got["copy_scope"] != () or got["copy_inner"] != ("inner",):
        ctx.fail("copy-scope", f"a copy made inside a scope does not start with an empty scope: {got['copy_scope']}, "
                               f"{got['copy_inner']}")
    return "a run inside plan.scope"


def nested(ctx, side, base, verify):
    """A call of the plan runs the plan itself once (another output)."""
    g = ctx.gen
    output, inner = side.draw_output(), side.draw_output()
    a, b = side.args(output), side.args(inner)
    ctx.note("step nested run")
    st = {"n": 0, "at": g.small(0, 8), "done": False}

    def check():
        st["n"] += 1
        if st["n"] == st["at"] + 1 and not st["done"]:
            st["done"] = True
            try:
                st["v"] = uberjob.run(side.plan, **b)
            except Exception as e:
                st["e"] = e
            ctx.count("nested_runs")
    sim, out = side.go(lambda: uberjob.run(side.plan, **a), before=lambda sim: side.watch(check))
    judge(ctx, side, output, out, "the outer of two nested runs")
    if "v" in st and not side.right(inner, st["v"]):
        ctx.fail("meaning", f"a nested run of the plan returned {st['v']!r:.200}")
    if "e" in st and not (side.may_fail() and isinstance(st["e"], uberjob.CallError)):
        ctx.fail("meaning", f"a nested run of the plan raised {st['e']!r} from {st['e'].__cause__!r}")
    return "nested runs"


def judge(ctx, side, output, out, what):
    if out.status == "returned":
        if not side.right(output, out.value):
            ctx.fail("meaning", f"{what} returned {out.value!r:.300}")
    elif out.status == "raised":
        if not (side.may_fail() and isinstance(out.exc, uberjob.CallError)):
            ctx.fail("meaning", f"{what} raised {out.exc!r} from {out.exc.__cause__!r}")
    else:
        ctx.fail("blocked", f"{what} never ended: {out.status} {out.detail}")


class Got:
    pass


def concurrent(ctx, side, base, verify):
    g = ctx.gen
    k = g.int(2, 4)
    jobs = []
    for _ in range(k):
        output = side.draw_output()
        what = g.weighted([("run", 6), ("dry", 1), ("render", 1), ("copy", 1)])
        jobs.append((what, output, side.args(output), g.choice([0, 0, 1, 5])))
    ctx.note("step concurrent", [(j[0], j[1]) for j in jobs])
    ctx.count("concurrent_runs", k)
    outs = [None] * k

    def one(i):
        what, output, a, delay = jobs[i]
        if delay:
            import time
            time.sleep(delay / 1000)
        r = Got()
        r.status, r.exc, r.value, r.detail = "returned", None, None, None
        try:
            if what == "run":
                r.value = uberjob.run(side.plan, **a)
            elif what == "dry":
                vandalise(ctx, uberjob.run(side.plan, dry_run=True, **a)[0])
            elif what == "render":
                uberjob.render(side.plan, registry=side.registry, level=g.choice([None, 1]), format="raw")
            else:
                c = side.plan.copy()
                if side.registry is not None:
                    rc = side.registry.copy()
                    rc.add(c.call(len, "x"), regs.MemStore(side.w, 10 ** 6))
                vandalise(ctx, c)
        except kernel.SimKilled:
            raise
        except BaseException as e:
            r.status, r.exc = "raised", e
        outs[i] = r

    def main():
        ts = [threading.Thread(target=one, args=(i,)) for i in range(1, k)]
        for t in ts:
            t.start()
        one(0)
        for t in ts:
            t.join()
    sim, out = side.go(main, before=lambda sim: spy(ctx, side, base, verify))
    finish_spy(ctx, side, "concurrent runs")
    if out.status != "returned":
        if out.status == "raised":
            raise out.exc
        ctx.fail("blocked", f"concurrent runs of one plan never ended: {out.status} {out.detail}")
    for i, r in enumerate(outs):
        if jobs[i][0] == "run":
            judge(ctx, side, jobs[i][1], r, f"run {i + 1} of {k} concurrent ones")
        elif r.status == "raised" and jobs[i][0] != "render":
            ctx.fail("meaning", f"a concurrent {jobs[i][0]} raised {r.exc!r} from {r.exc.__cause__!r}")
    if isinstance(side, RegSide):
        view, raw = side.w.scratch()
        if any(j[0] == "run" for j in jobs):
            for n in side.w.nodes:
                if n.sid is not None and n.kind != "src":
                    st = side.w.state.get(n.sid)
                    if st is None or not regs.eq(st[0], raw[n.id]):
                        ctx.fail("meaning", f"after concurrent runs store {n.sid} (n{n.id}) holds "
                                            f"{st and st[0]!r} instead of {raw[n.id]!r}")
    return "concurrent runs"


def copies(ctx, side, base, verify):
    g = ctx.gen
    plan = side.plan
    how = g.choice(["method", "copy.copy"])
    ctx.note("step copies", how)

    def dup(x):
        return x.copy() if how == "method" else copy.copy(x)

    def main():
        c = dup(plan)
        r = dup(side.registry) if side.registry is not None else None
        d = base.diff(Snap(c, r))
        if d:
            ctx.fail("copy-differs", f"a copy differs from its original: {d}")
        if c.graph is plan.graph:
            ctx.fail("copy-shared", "a copied plan has the graph of its original")
        # the other direction: edit what was copied from
        c2, r2 = dup(c), None if r is None else dup(r)
        s2 = Snap(c2, r2)
        nodes = sorted(c.graph.nodes(), key=describe)
        if r is not None:
            sid = 10 ** 6
            free = [u for u in nodes if u not in r]
            for _ in range(g.int(1, 3)):
                k = g.choice(["add", "source", "flag", "del"])
                if k == "add" and free:
                    r.add(free.pop(), regs.MemStore(side.w, sid))
                elif k == "source":
                    r.source(c, regs.MemStore(side.w, sid))
                elif k == "flag" and len(r):
                    u = g.choice(list(r.keys()))
                    try:
                        r.mapping[u].is_source = not r.mapping[u].is_source
                        r.mapping[u].value_store = regs.MemStore(side.w, sid)
                    except (AttributeError, TypeError):
                        pass  # entries that cannot be edited cannot leak edits either
                elif k == "del" and len(r) and hasattr(r, "mapping"):
                    del r.mapping[g.choice(list(r.keys()))]
        vandalise(ctx, c)
        verify("editing a copy")
        d = s2.diff(Snap(c2, r2))
        if d:
            ctx.fail("copy-original", f"editing a plan or registry modified a copy made from it: {d}")
        return c2, r2
    sim, out = ctx.run(main)
    if out.status == "raised":
        raise out.exc
    c2, r2 = out.value
    ctx.count("copies_edited")
    # a copy of a copy is run in place of the plan
    output = side.draw_output()
    a = side.args(output)
    if r2 is not None:
        a["registry"] = r2
    s2 = Snap(c2, r2)
    sim, out = side.go(lambda: uberjob.run(c2, **a))
    if regs.hang(out):
        ctx.count("hang_left_to_C07")
        return "running a copy"
    judge(ctx, side, output, out, "a run of a copy")
    d = s2.diff(Snap(c2, r2))
    if d:
        ctx.fail("modified", f"running a copy modified it: {d}")
    return "copying and running the copy"


def grow(ctx, side, base, verify):
    """The caller adds to the plan and registry: later runs must see it."""
    g, w = ctx.gen, side.w
    for _ in range(g.int(1, 3)):
        if isinstance(side, PlanSide):
            w.new_call()
        else:
            bare = [n for n in w.nodes if n.kind == "call" and n.sid is None and n.refreshes is None]
            if bare and g.bool(0.4):
                w._register(g.choice(bare))
            else:
                getattr(w, "new_" + g.choice(["call", "call", "src", "gather"]))()
    for sid in getattr(w, "sources", ()):
        if sid not in w.state:
            w.set_source(sid)
    ctx.note("step grow", w.describe())
    return "growing the plan"


def rejected(ctx, side, base, verify):
    g = ctx.gen
    output = side.draw_output()
    a = side.args(output)
    k = g.choice(["max_workers", "max_errors", "scheduler", "retry", "progress", "output", "observer"])
    bad = {"max_workers": 0, "max_errors": -1, "scheduler": "none", "retry": 0, "progress": 3}
    ctx.note("step rejected run", k)
    if k in bad:
        a[k] = bad[k]
    elif k == "output":
        # a symbolic output that is not in the plan: run must not adopt it
        a["output"] = [a["output"], uberjob.Plan().call(len, "x")]
    else:
        class Obs(plans.RecordingObserver):
            def __enter__(self):
                raise ValueError("observer")
        a["progress"] = uberjob.progress.Progress(Obs)
    sim, out = side.go(lambda: uberjob.run(side.plan, **a))
    ctx.count("rejected_runs:" + out.status)
    return f"a run with a bad {k}"
