"""C04: every needed call runs exactly once and nothing unneeded runs."""
import collections

import uberjob
from sim import fw, plans

PROP = "C04"
QUICK = 22000
THOROUGH = 400000
RULE = ("Random plans with required and unrequired parts, failing calls and retries, 1-8 workers, both schedulers, "
        "schedules with optional preemption between bytecodes; execution counters per call.")
REAL = fw.REAL_BASE
STUB = fw.STUB_BASE
ASSUMPTIONS = ["preemption happens at synchronisation operations and between bytecodes of uberjob code"]


def case(ctx):
    g = ctx.gen
    fails = g.bool(0.35)
    retry_n = g.choice([1, 1, 2, 3]) if fails else 1
    w = plans.PlanWorld(ctx, crowd=0.004, n_max=g.choice([8, 14, 30]), fail_rate=0.2 if fails else None, retry_n=retry_n,
                        p_dep=g.choice([0, 1]))
    cfg = plans.draw_config(ctx)
    output = w.draw_output(0.08)
    ctx.note("plan", w.describe())
    ctx.note("cfg", cfg, "retry", retry_n, "output", output)
    if fails:
        ctx.fault("call_raises", sum(1 for n in w.calls if n.fails))
    out_spec = None if output is None else w.build(output)
    runs = g.weighted([(1, 4), (2, 1)])
    for k in range(runs):
        for n in w.nodes:
            n.attempts = 0
        w.started.clear()
        w.ended.clear()
        w.failed.clear()
        args = plans.given(ctx, cfg)
        sim, out = ctx.run(lambda: uberjob.run(w.plan, output=out_spec, retry=retry_n if retry_n > 1 else None,
                                               progress=False, **args))
        check(ctx, w, out, output, retry_n)


def check(ctx, w, out, output, retry_n):
    counts = collections.Counter(w.started)
    needed = w.needed(output)
    ctx.count("calls_executed", len(w.started))
    for nid, c in counts.items():
        allowed = 1 if retry_n == 1 else min(retry_n, len(w.nodes[nid].fails) + 1)
        if c > allowed:
            ctx.fail("repeated", f"call {nid} was executed {c} times (at most {allowed} attempts allowed)")
    if out.status == "returned":
        for nid in counts:
            if nid not in needed:
                ctx.fail("unneeded", f"call {nid} was executed although the output does not depend on it")
        for nid in needed:
            if nid not in counts:
                ctx.fail("skipped", f"call {nid} was not executed although the run succeeded and the output "
                                    f"depends on it")
    elif out.status in ("deadlock", "steps"):
        ctx.count("hang_left_to_C07")
