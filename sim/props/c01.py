"""C01: a call starts only after everything it depends on has finished successfully."""
import uberjob
from sim import fw, plans

PROP = "C01"
QUICK = 20000
THOROUGH = 400000
RULE = ("Random plans (chains, fan-in/out, layers, diamonds, wide, nested containers, literals, gathers, unpacks, plain "
        "and parallel edges), failing calls, 1-8 workers, both schedulers, random/PCT/round-robin schedules with "
        "optional preemption between bytecodes.")
REAL = fw.REAL_BASE
STUB = fw.STUB_BASE
ASSUMPTIONS = ["preemption happens at synchronisation operations and between bytecodes of uberjob code",
               "call functions of the workload do not touch uberjob"]


def install_order_check(ctx, w):
    bad = []

    def on_start(n, args, kwargs):
        for a in w.call_ancestors(n.id):
            if a not in w.ended:
                bad.append((n.id, a))
    w.on_start = on_start
    return bad


def case(ctx):
    g = ctx.gen
    if g.bool(0.2):
        from sim import regcases
        return regcases.case_c01(ctx)
    fails = g.bool(0.35)
    retry_n = g.choice([1, 1, 2]) if fails else 1
    w = plans.PlanWorld(ctx, crowd=0.004, n_max=g.choice([8, 14, 30]), fail_rate=0.2 if fails else None, retry_n=retry_n,
                        p_lit=g.choice([0.12, 0.35]), p_dep=1)
    cfg = plans.draw_config(ctx)
    output = w.draw_output()
    bad = install_order_check(ctx, w)
    ctx.note("plan", w.describe())
    ctx.note("cfg", cfg, "retry", retry_n, "output", output)
    if fails:
        ctx.fault("call_raises", sum(1 for n in w.calls if n.fails))
    out_spec = None if output is None else w.build(output)
    args = plans.given(ctx, cfg)
    sim, out = ctx.run(lambda: uberjob.run(w.plan, output=out_spec, retry=retry_n if retry_n > 1 else None,
                                           progress=False, **args))
    ctx.count("calls_executed", len(w.started))
    if bad:
        n, a = bad[0]
        st = "had failed" if a in w.failed else "was still running" if any(r[0] == a for r in w.running) \
            or a in w.started else "had not started"
        ctx.fail("order", f"call {n} started although call {a}, on which it depends, {st}")
    if out.status in ("deadlock", "steps"):
        ctx.count("hang_left_to_C07")
