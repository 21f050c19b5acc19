"""C10: max_workers, stale_check_max_workers, max_errors and retry are honoured."""
import collections
import functools

import uberjob
from sim import fw, kernel, plans

PROP = "C10"
QUICK = 16000
THOROUGH = 400000
RULE = ("Random plans with calls that take simulated time, 1-8 (now and then up to 100) workers, failing and flaky calls, stores and "
        "modified-time queries, max_errors 0..None, retry 1..4 or a custom decorator; in-flight counters at every "
        "operation, work conservation at every instant at which all threads are blocked.")
REAL = fw.REAL_BASE
STUB = fw.STUB_BASE + ["os.cpu_count() is fixed to 4 (so max_workers=None means 8)"]
ASSUMPTIONS = ["preemption happens at synchronisation operations and between bytecodes of uberjob code",
               "work conservation is judged when simulated time is about to advance, so that uberjob's own bookkeeping "
               "takes no time"]


class Flaky(plans.PlanWorld):
    pass


def custom_retry(n, log):
    def deco(f):
        @functools.wraps(f)
        def g(*a, **k):
            for i in range(n):
                try:
                    return f(*a, **k)
                except Exception:
                    log.append(i)
                    if i == n - 1:
                        raise
        return g
    return deco


def case(ctx):
    g = ctx.gen
    if g.bool(0.25):
        from sim import regcases
        return regcases.case_c10(ctx)
    mode = g.weighted([("width", 3), ("errors", 4), ("retry", 3)])
    ctx.count("kind:" + mode)
    retry_n = g.int(2, 4) if mode == "retry" else 1
    fail = {"width": None, "errors": g.choice([0.3, 0.7, 1.0]), "retry": g.choice([0.3, 0.7])}[mode]
    shape = g.choice(["wide", "layered", "random", "fan_out", "wide", "tree"]) if mode != "retry" else None
    # (whether an attempt that ends with another BaseException is followed by another is not specified)
    kinds = plans.EXC_KINDS if retry_n == 1 else plans.ONLY_EXCEPTION
    many = mode == "width" and g.bool(0.015)  # far more workers than cores
    w = plans.PlanWorld(ctx, crowd=1.0 if many else 0.004, n_max=g.choice([8, 16, 30]), fail_rate=fail, retry_n=retry_n, shape=shape, kinds=kinds,
                        p_dep=g.choice([0, 0, 1]))
    cfg = plans.draw_config(ctx, max_errors=mode != "width")
    if many:
        cfg["max_workers"] = g.choice([9, 12, 16, 24, 33, 40, 64, 100])
    output = ("list", [("node", n.id) for n in w.nodes]) if mode != "width" or g.bool(0.6) else w.draw_output()
    ctx.note("mode", mode, "plan", w.describe())
    ctx.note("cfg", cfg, "retry", retry_n, "output", output)
    limit = cfg["max_workers"] or 8
    needed = w.needed(output)
    idle_bad = []
    sim = ctx.new_sim()

    def idle():
        if any(w.failed.count(i) >= retry_n for i in w.failed):
            return  # a failure may have stopped the run
        ready = [n.id for n in w.calls if n.id in needed and n.id not in started_set()
                 and all(a in w.ended for a in w.call_ancestors(n.id))]
        if ready and w.in_flight < limit and w.in_flight + len(ready) >= limit:
            idle_bad.append((w.in_flight, len(ready)))

    def started_set():
        return set(w.started)
    sim.on_idle.append(idle)
    out_spec = None if output is None else w.build(output)
    retries = []
    retry = None
    if mode == "retry":
        retry = custom_retry(retry_n, retries) if g.bool(0.3) else retry_n
    args = plans.given(ctx, cfg)
    sim, out = ctx.run(lambda: uberjob.run(w.plan, output=out_spec, retry=retry, progress=False, **args), sim=sim)
    if w.max_in_flight > limit:
        ctx.fail("max-workers", f"{w.max_in_flight} calls executed at the same time with max_workers={limit}")
    ctx.distinct("in_flight_peaks", (limit, w.max_in_flight))
    if idle_bad:
        f, r = idle_bad[0]
        ctx.fail("parallelism", f"only {f} calls in flight while {r} more were ready, with max_workers={limit}")
    if out.status not in ("returned", "raised"):
        ctx.count("hang_left_to_C07")
        return
    if mode == "width":
        return
    ctx.fault("call_attempt_raises", len(w.failed))
    counts = collections.Counter(w.started)
    final = [nid for i, nid in enumerate(w.failed) if w.failed[:i + 1].count(nid) == retry_n]
    # retry
    for nid, c in counts.items():
        expect = min(retry_n, len(w.nodes[nid].fails) + 1)
        if c > retry_n:
            ctx.fail("attempts", f"call {nid} was attempted {c} times with retry={retry_n}")
        if c != expect:
            ctx.fail("attempts", f"call {nid} was attempted {c} times, expected {expect} "
                                 f"({len(w.nodes[nid].fails)} failures scripted, retry={retry_n})")
    # which calls fail if everything runs
    k = cfg["max_errors"]
    doomed = {n.id for n in w.calls if n.id in needed and len(n.fails) >= retry_n}
    eligible = {d for d in doomed if not (w.call_ancestors(d) & doomed)}
    runnable = {i for i in needed if not (w.call_ancestors(i) & doomed)}
    if k is None:
        miss = runnable - set(counts)
        if miss:
            ctx.fail("none-runs-all", f"max_errors=None but call {min(miss)}, none of whose dependencies failed, "
                                      f"was not executed")
    else:
        if len(final) > k + limit:
            ctx.fail("max-errors", f"{len(final)} calls failed with max_errors={k}, max_workers={limit}")
        if limit == 1 and len(final) != min(k + 1, len(eligible)):
            ctx.fail("max-errors-serial", f"{len(final)} calls failed with a single worker and max_errors={k}; "
                                          f"expected {min(k + 1, len(eligible))} of {len(eligible)}")
        if len(final) <= k:
            miss = runnable - set(counts)
            if miss:
                ctx.fail("stopped-early", f"only {len(final)} calls failed with max_errors={k} but call {min(miss)} "
                                          f"was not executed")
    if out.status == "returned" and final:
        ctx.fail("swallowed", f"call {final[0]} exhausted its attempts but run returned")
    if out.status == "raised":
        if not final:
            ctx.fail("eventual-success", f"every call eventually succeeded but run raised {out.exc}")
        if type(out.exc) is uberjob.CallError:
            n = next((n for n in w.calls if n.sym is out.exc.call), None)
            if n is not None and (n.id, retry_n - 1) in w.exc and out.exc.__cause__ is not w.exc[n.id, retry_n - 1]:
                att = [a for (i, a), e in w.exc.items() if e is out.exc.__cause__]
                ctx.fail("last-attempt", f"the reported exception of call {n.id} is from attempt {att}, not the last")
