"""C09: rebuilt stored values are written, then read back, before downstream use."""
from sim import fw, plans, regcases, regs
from sim.plans import eval_expr

PROP = "C09"
QUICK = 12000
THOROUGH = 400000
RULE = ("Random plans with sources, dependent sources, stored calls / literals / gathers and plain dependencies over "
        "in-memory stores in arbitrary states whose read returns a new object different from what was written; every "
        "operation is checked when it starts against what the reference model requires to be complete; consumers and "
        "output must receive the very objects returned by the store reads; some operations raise.")
REAL = fw.REAL_BASE
STUB = fw.STUB_BASE + ["value stores (in-memory, logical clock, read returns a transformed copy)"]
ASSUMPTIONS = ["stores return (a transformed copy of) what was last written"]


def case(ctx):
    g = ctx.gen
    w = regcases.draw_world(ctx, p_src=g.choice([0.2, 0.1]), p_dsrc=g.choice([0.1, 0.25]), p_lit=g.choice([0.08, 0.25]),
                            p_gather=g.choice([0.1, 0.25]), odd_sources=0.3)
    for k in range(g.int(1, 2)):
        cfg = regs.draw_config(ctx)
        output = w.draw_output(0.15)
        fresh = regcases.draw_fresh(ctx, w)
        pred = w.predict(output, fresh)
        scripts = {}
        if g.bool(0.25):
            scripts = regcases.script_failures(ctx, w, 0.08, ops=("call", "read", "write"))
            cfg["max_errors"] = g.choice([0, None])
        else:
            w.scripts = {}
        ctx.note("cfg", cfg, "output", output, "scripts", scripts, "fresh", fresh)
        bad = []
        sim, out = w.run(output=output, fresh_us=fresh, cfg=cfg, check_values=True,
                         before=lambda sim: regcases.watch_order(w, pred["ood"], bad))
        ctx.fault("op_raises", len(w.fails))
        ctx.count("out_of_date_nodes", len(pred["ood"]))
        ctx.distinct("ood_patterns", (tuple(sorted(pred["ood"])), len(w.nodes)))
        if bad:
            a, b = bad[0]
            ctx.fail("order", f"{regcases.name(a)} started before {regcases.name(b)} was complete")
        if w.online:
            ctx.fail(*w.online[0])
        if regs.hang(out):
            ctx.count("hang_left_to_C07")
            return
        if out.status != "returned":
            if not w.fails:
                ctx.fail("raised", f"run raised {out.exc!r} from {out.exc.__cause__!r} although nothing failed")
            return
        for sid in sorted(pred["writes"]):
            if not w.writes[sid]:
                ctx.fail("not-rebuilt", f"store {sid} is out of date (or downstream of an out-of-date stored value) but "
                                        f"was not rebuilt in this run")
        if output is not None:
            want = eval_expr(output, w.value_env())
            if not regs.same(want, out.value):
                ctx.fail("output", f"run returned {out.value!r} with origins {regs.origins(out.value)}; the values read "
                                   f"back are {regs.origins(want)}")
        for sid in w.sources:
            if g.bool(0.3):
                w.now_us += 5
                w.set_source(sid)
                ctx.fault("source_update")
