"""C15: progress observers receive an exact, well-formed account of every run."""
import collections

import uberjob
from sim import fw, plans
from sim.props._account import Extras, check_all, make_progress, scope_of

PROP = "C15"
QUICK = 16000
THOROUGH = 400000
RULE = ("Random plans with scopes, with and without a registry, with failing calls, stores and modified-time queries, "
        "single and composite recording observers, 1-8 workers; the notification sequence is checked against the "
        "account rules and the executed calls.")
REAL = fw.REAL_BASE + ["uberjob.progress.composite_progress"]
STUB = fw.STUB_BASE + ["progress observers (recording)"]
ASSUMPTIONS = ["preemption happens at synchronisation operations and between bytecodes of uberjob code"]


def case(ctx):
    g = ctx.gen
    if g.bool(0.45):
        from sim import regcases
        return regcases.case_c15(ctx)
    fails = g.bool(0.4)
    retry_n = g.choice([1, 1, 2])
    w = plans.PlanWorld(ctx, n_max=g.choice([6, 14, 25]), fail_rate=0.25 if fails else None, scopes=True, crowd=0.02, share_names=True,
                        retry_n=retry_n, p_gather=0.2, p_unpack=0.15)
    cfg = plans.draw_config(ctx)
    output = w.draw_output(0.1)
    ctx.note("plan", w.describe(), [n.scope for n in w.nodes])
    ctx.note("cfg", cfg, "retry", retry_n, "output", output)
    out_spec = None if output is None else w.build(output)
    observers = []
    progress = make_progress(ctx, observers)
    dry = g.bool(0.1)
    extras = None
    if g.bool(0.2):
        extras = cfg["transform_physical"] = Extras(ctx)
        retry_n = 1
    go = lambda: uberjob.run(w.plan, output=out_spec, progress=progress, dry_run=dry,  # noqa: E731
                             retry=retry_n if retry_n > 1 else None, **cfg)
    interrupted = not dry and w.calls and g.bool(0.1)
    if interrupted:
        # Ctrl-C: the calls end normally, so the account must still be exact
        from sim.props import c17
        sim, out = c17.interrupted_run(ctx, w, go, len(w.calls))
        ctx.note("ended", out.status, repr(out.exc))
    else:
        sim, out = ctx.run(go)
    ctx.fault("call_raises", len(w.failed))
    if out.status not in ("returned", "raised") or out.unfinished:
        ctx.count("hang_left_to_C07")
        return
    if not interrupted and not w.failed and not (extras and (extras.raises or extras.failed)) and out.status == "raised":
        ctx.fail("spurious", f"no call failed but run raised {out.exc!r}")
    ran = collections.Counter()
    for nid in set(w.started):
        ran[scope_of(w.nodes[nid].scope, w.nodes[nid].fn)] += 1
    failed = collections.Counter()
    for nid in {n for n in w.failed if w.failed.count(n) >= retry_n}:
        failed[scope_of(w.nodes[nid].scope, w.nodes[nid].fn)] += 1
    if extras:
        ran += extras.ran
        failed += extras.failed
    user_fn = lambda s: s and isinstance(s[-1], str) and s[-1].split(".")[-1].startswith("fn")
    check_all(ctx, observers, out, executed=ran, failed=failed, is_user=user_fn, dry=dry, stale=collections.Counter())
    # the gather and unpack calls are uberjob's own functions; their number is known from the model
    if out.status == "returned" and not dry:
        need = w.needed_nodes(output)
        extra = sum(1 for i in need if w.nodes[i].kind == "item")
        tot = collections.Counter()
        for e in observers[0].events:
            if e[0] == "total" and e[1] == "run":
                tot["all"] += e[3]
        if tot["all"] < len(w.needed(output)) + extra:
            ctx.fail("run-total", f"'run' totals add up to {tot['all']}, fewer than the calls executed")
