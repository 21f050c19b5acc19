"""C14: a dry run touches nothing and returns a faithful, self-contained physical plan."""
import collections

import uberjob
from sim import fw, kernel, plans, regcases, regs

PROP = "C14"
QUICK = 9000
THOROUGH = 300000
RULE = ("Random plans with and without a registry over stores in arbitrary states: a dry run, then the returned physical "
        "plan executed by itself (all of its nodes), then the real run from the same store state, each under its own "
        "schedule; events, outputs and final stores are compared.")
REAL = fw.REAL_BASE
STUB = fw.STUB_BASE + ["value stores (in-memory, logical clock)"]
ASSUMPTIONS = ["call functions are deterministic", "stores return what was last written"]


def ops(w):
    return collections.Counter({k: c for k, c in w.attempts.items() if k[0] != "mt"})


def case(ctx):
    g = ctx.gen
    w = regcases.draw_world(ctx, p_reg=g.choice([0.55, 0.3]), odd_sources=0.3, p_lit=g.choice([0.08, 0.2]))
    if g.bool(0.15):
        plain_case(ctx)
    output = w.draw_output(0.2)
    fresh = regcases.draw_fresh(ctx, w)
    pred = w.predict(output, fresh)
    missing_source = any(n.kind == "src" and n.sid not in w.state for n in w.nodes)
    cfg = regs.draw_config(ctx)
    tr = g.choice([None, None, "copy", "extra"])
    ctx.note("cfg", cfg, "output", output, "transform", tr, "fresh", fresh)
    start = dict(w.state)
    now = w.now_us, w.last_mtime
    seen = []

    def transform(plan, node):
        seen.append((plan, node))
        p2 = plan.copy()
        if tr == "extra" and node is not None:
            with p2.scope("transformed"):
                return p2, p2.call(echo, node)
        return p2, node
    kw = {"transform_physical": transform} if tr else {}
    # the dry run
    sim, out = w.run(output=output, fresh_us=fresh, cfg=cfg, dry_run=True, **kw)
    if regs.hang(out):
        ctx.count("hang_left_to_C07")
        return
    if out.status != "returned":
        ctx.fail("raised", f"dry run raised {out.exc!r}")
    touched = ops(w)
    if touched:
        ctx.fail("touched", f"the dry run performed {[regcases.name(k) for k in sorted(touched)]}")
    if w.state != start:
        ctx.fail("modified", "the dry run changed a store")
    for k, c in w.mts.items():
        if c > 1:
            ctx.fail("mt-twice", f"the dry run asked store {k} {c} times for its modified time")
    ctx.check(type(out.value) is tuple and len(out.value) == 2, "shape", lambda: f"a dry run returned {out.value!r}")
    phys, node = out.value
    ctx.check(isinstance(phys, uberjob.Plan), "shape", "a dry run did not return a plan")
    if output is None:
        ctx.check(node is None, "output-node", lambda: f"no output was requested but the output node is {node!r}")
    else:
        ctx.check(phys.graph.has_node(node), "output-node", "the output node is not a node of the physical plan")
    if tr:
        ctx.check(len(seen) == 1, "transform", lambda: f"transform_physical was called {len(seen)} times")

    def restore():
        w.state = dict(start)
        w.now_us, w.last_mtime = now

    # the physical plan by itself
    nodes = list(phys.graph.nodes())
    spec = [node, nodes] if node is not None else [None, nodes]
    restore()
    bad = []
    w.reset()
    sim = ctx.new_sim(start_us=max(w.now_us, w.last_mtime) + 1)
    regcases.watch_order(w, pred["ood"], bad)
    cfg2 = regs.draw_config(ctx, stale_workers=False)
    sim, o_phys = ctx.run(lambda: uberjob.run(phys, output=spec, progress=False, **cfg2), sim=sim)
    phys_ops, phys_state = ops(w), {k: v[0] for k, v in w.state.items()}
    if regs.hang(o_phys):
        return
    # the real run
    restore()
    cfg3 = regs.draw_config(ctx)
    sim, o_real = w.run(output=output, fresh_us=fresh, cfg=cfg3, **kw)
    if regs.hang(o_real):
        return
    real_ops, real_state = ops(w), {k: v[0] for k, v in w.state.items()}
    ctx.count("operations_compared", sum(real_ops.values()))
    if bad:
        a, b = bad[0]
        ctx.fail("phys-order", f"executing the physical plan started {regcases.name(a)} before {regcases.name(b)} "
                               f"was complete")
    if o_phys.status != o_real.status:
        ctx.fail("status", f"executing the physical plan {o_phys.status} ({o_phys.exc!r}), the real run "
                           f"{o_real.status} ({o_real.exc!r})")
    if o_real.status != "returned":
        if not missing_source:
            ctx.fail("raised", f"the real run raised {o_real.exc!r}")
        return
    if phys_ops != real_ops:
        d = sorted((phys_ops - real_ops).keys()), sorted((real_ops - phys_ops).keys())
        ctx.fail("operations", f"only when executing the physical plan: {d[0]}; only in the real run: {d[1]}")
    if phys_state != real_state:
        ctx.fail("stores", "the physical plan and the real run left different stored values")
    got = first_of(ctx, o_phys.value)
    if not regs.eq(got, o_real.value):
        ctx.fail("output", f"the physical plan yields {got!r}, the real run {o_real.value!r}")


def first_of(ctx, x):
    if type(x) is not list or len(x) != 2:
        ctx.fail("output", f"running the physical plan with two outputs returned {x!r:.200}")
    return x[0]


def echo(x):
    return x


def plain_case(ctx):
    """No registry."""
    g = ctx.gen
    w = plans.PlanWorld(ctx, n_max=g.choice([6, 14]), p_dep=g.choice([0, 1]))
    output = w.draw_output(0.1)
    cfg = plans.draw_config(ctx)
    spec = None if output is None else w.build(output)
    ctx.note("plain plan", w.describe(), "output", output)
    sim, out = ctx.run(lambda: uberjob.run(w.plan, output=spec, progress=False, dry_run=True, **cfg))
    if out.status != "returned":
        return
    ctx.check(not w.started, "touched", lambda: f"the dry run executed call {w.started[0]}")
    ctx.check(type(out.value) is tuple and len(out.value) == 2 and isinstance(out.value[0], uberjob.Plan), "shape",
              lambda: f"a dry run returned {out.value!r}")
    phys, node = out.value
    sim, o1 = ctx.run(lambda: uberjob.run(phys, output=[node, list(phys.graph.nodes())], progress=False, **cfg))
    first = collections.Counter(w.started)
    w.started.clear()
    sim, o2 = ctx.run(lambda: uberjob.run(w.plan, output=spec, progress=False, **cfg))
    if o1.status == o2.status == "returned":
        second = collections.Counter(w.started)
        ctx.check(first == second, "operations", lambda: f"physical plan executed {sorted(first)}, run {sorted(second)}")
        ctx.check(shape(first_of(ctx, o1.value)) == shape(o2.value), "output", "the physical plan yields another output")
    else:
        ctx.check(o1.status == o2.status, "status", f"physical plan {o1.status} ({o1.exc!r}), run {o2.status} ({o2.exc!r})")


def shape(x):
    if isinstance(x, plans.Res):
        return ("res", x.nid)
    if isinstance(x, dict):
        return ("dict", [(shape(k), shape(v)) for k, v in x.items()])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(map(repr, map(shape, x))))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [shape(y) for y in x])
    return repr(x)
