"""C06: nothing downstream of a failed call runs; the raised error names a real failure."""
import uberjob
from sim import fw, plans

PROP = "C06"
QUICK = 20000
THOROUGH = 400000
RULE = ("Random plans with 1-n raising calls (exceptions that are falsy, compare equal to anything, cannot be pickled, "
        "are frozen dataclasses, CallErrors of nested runs, BaseExceptions), 1-8 workers, max_errors 0..None, "
        "both schedulers, schedules with optional preemption between bytecodes.")
REAL = fw.REAL_BASE
STUB = fw.STUB_BASE
ASSUMPTIONS = ["preemption happens at synchronisation operations and between bytecodes of uberjob code"]


def case(ctx):
    g = ctx.gen
    if g.bool(0.12):
        from sim import regcases
        return regcases.case_c06(ctx)
    base = g.bool(0.25)
    retry_n = 1 if base else g.choice([1, 1, 1, 2])
    w = plans.PlanWorld(ctx, crowd=0.004, n_max=g.choice([8, 14, 30]), fail_rate=g.choice([0.15, 0.3, 0.6]), retry_n=retry_n,
                        kinds=plans.EXC_KINDS if base else plans.ONLY_EXCEPTION, p_dep=g.choice([0, 1]),
                        p_lit=g.choice([0.12, 0.3]))
    cfg = plans.draw_config(ctx)
    output = w.draw_output()
    ctx.note("plan", w.describe())
    ctx.note("cfg", cfg, "retry", retry_n, "output", output)
    bad = []
    down = []

    def on_start(n, args, kwargs):
        for a in w.call_ancestors(n.id):
            if is_failed(w, a, retry_n):
                down.append((n.id, a))
    w.on_start = on_start
    out_spec = None if output is None else w.build(output)
    observers = []
    progress = plans.recording_progress(observers) if g.bool(0.3) else False
    args = plans.given(ctx, cfg)
    sim, out = ctx.run(lambda: uberjob.run(w.plan, output=out_spec, retry=retry_n if retry_n > 1 else None,
                                           progress=progress, **args))
    check(ctx, w, out, retry_n, cfg["max_workers"] == 1, down)


def is_failed(w, nid, retry_n):
    return w.failed.count(nid) >= retry_n


def check(ctx, w, out, retry_n, serial, down):
    for nid in w.failed:
        ctx.fault("call_raises")
    if down:
        ctx.fail("downstream", f"call {down[0][0]} was started although call {down[0][1]}, on which it depends, failed")
    final = [nid for i, nid in enumerate(w.failed) if w.failed[:i + 1].count(nid) == retry_n]
    if out.status in ("deadlock", "steps"):
        if final:
            ctx.fail("no-error", f"call {final[0]} failed but run did not raise: {out.status} ({out.detail})")
        return
    if not final:
        if out.status == "raised":
            ctx.fail("spurious", f"no call failed but run raised {type(out.exc).__name__}: {out.exc}")
        return
    if out.status == "returned":
        ctx.fail("returned", f"call {final[0]} raised but run returned a value")
    e = out.exc
    if type(e) is not uberjob.CallError:
        ctx.fail("type", f"call {final[0]} raised but run raised {type(e).__name__} instead of CallError: {e}")
    by_sym = {id(n.sym): n for n in w.calls}
    n = by_sym.get(id(e.call))
    if n is None or n.id not in final:
        ctx.fail("call", f"CallError.call is {'not a call of the plan' if n is None else f'call {n.id}'}, "
                         f"which did not fail (failed: {final})")
    if e.__cause__ is not w.exc[n.id, retry_n - 1]:
        ctx.fail("cause", f"CallError.__cause__ is {type(e.__cause__).__name__} {e.__cause__}, not the very exception "
                          f"object that call {n.id} raised")
    if serial and n.id != final[0]:
        ctx.fail("first", f"calls ran one at a time and call {final[0]} failed first, but the error names call {n.id}")
