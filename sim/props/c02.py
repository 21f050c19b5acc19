"""C02: run returns exactly what direct evaluation of the call graph would return."""
import uberjob
from sim import exprs, fw, plans

PROP = "C02"
QUICK = 12000
THOROUGH = 1500000
RULE = ("Random expression graphs (calls through eight kinds of callable, library functions, literals, gathers, unpacks of "
        "right and wrong length; arguments mixing nodes, nested list/tuple/set/dict with nodes as keys and colliding keys, "
        "container subclasses and hostile objects), each run 1-2 times under different worker counts, schedulers and "
        "schedules; what every call received and what run returned is compared, by identity where objects must be "
        "passed through, with an independent recursive evaluator.")
REAL = fw.REAL_BASE
STUB = fw.STUB_BASE
ASSUMPTIONS = ["call functions are deterministic", "which of several equal members a rebuilt set keeps is not specified"]


def case(ctx):
    g = ctx.gen
    w = exprs.ExprWorld(ctx, n_max=g.choice([4, 9, 16]), deep=g.bool(0.15))
    ctx.note("plan", w.describe())
    for k in range(g.int(1, 2)):
        w.mutate()
        r = g.choice(["expr", "node", "all", "plain", "none"]) if g.bool(0.9) else "none"
        if r == "expr":
            out = w.expr()
        elif r == "node":
            out = ("node", g.choice([n for n in w.nodes if n.kind != "unpack"]).id)
        elif r == "all":
            out = w.mk("list", [("node", n.id) for n in w.nodes if n.kind != "unpack"])
        elif r == "plain":
            out = w.obj()
        else:
            out = ("obj", None)
        one_round(ctx, w, out, k)


def one_round(ctx, w, out, k):
    cfg = plans.draw_config(ctx)
    g = ctx.gen
    retry = g.choice([None, None, 1, 2])
    w.begin()
    spec = w.sym(out)
    ctx.note("cfg", cfg, "retry", retry, "output", exprs.fmt(out)[:1500])
    ev = w.evaluator()
    want = failure = None
    needed = w.needed(out)
    failing = set()
    for i in sorted(needed):
        try:
            ev.node(i)
        except exprs.Failure as f:
            failing.add(f.nid)
    try:
        want = ev.expr(out, None)
    except exprs.Failure as f:
        failure = f
    if failing and failure is None:
        failure = exprs.Failure(sorted(failing)[0], None)
    if any(w.nodes[i].kind == "call" and w.nodes[i].failing for i in needed):
        retry = None
    sim, res = ctx.run(lambda: uberjob.run(w.plan, output=spec, retry=retry, progress=False, **cfg))
    if res.status in ("deadlock", "steps"):
        ctx.count("hang_left_to_C07")
        return
    if w.problem:
        ctx.fail("twice", w.problem)
    # what the calls received
    for nid, args, kwargs in w.received:
        n = w.nodes[nid]
        try:
            a = [ev.expr(x, nid) for x in n.args]
            kw = {x: ev.expr(e, nid) for x, e in n.kwargs.items()}
        except exprs.Failure:
            ctx.fail("ran-after-failure", f"call {nid} ran although evaluating its arguments fails")
        w.oracle = []
        n.fn(lambda a, k: w.record(nid, a, k))(*a, **kw)
        (oa, ok), w.oracle = w.oracle[0], None
        if len(oa) != len(args):
            ctx.fail("args", f"call {nid} received {len(args)} positional arguments instead of {len(oa)}: {args!r}")
        for i, (x, y) in enumerate(zip(oa, args)):
            d = exprs.match(x, y)
            if d:
                ctx.fail("arg", f"call {nid}, positional argument {i}: {d}")
        if list(ok) != list(kwargs):
            ctx.fail("kwargs-order", f"call {nid} received keyword arguments {list(kwargs)} instead of {list(ok)}")
        for x in ok:
            d = exprs.match(ok[x], kwargs[x])
            if d:
                ctx.fail("kwarg", f"call {nid}, keyword argument {x}: {d}")
    ctx.count("calls_checked", len(w.received))
    if failure is not None:
        ctx.fault("evaluation_fails")
        if res.status == "returned":
            ctx.fail("no-error", f"direct evaluation fails at node {failure.nid} but run returned {res.value!r}")
        if type(res.exc) is not uberjob.CallError:
            ctx.fail("error-type", f"direct evaluation fails at node {failure.nid} but run raised {res.exc!r}")
        return
    if res.status != "returned":
        ctx.fail("raised", f"direct evaluation succeeds but run raised {res.exc!r} from {res.exc.__cause__!r}")
    d = exprs.match(want, res.value)
    if d:
        ctx.fail("output", f"run returned something else than direct evaluation: {d}")
    ctx.count("outputs_checked")
