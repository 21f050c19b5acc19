"""C05: exactly the out-of-date stored values are rebuilt; a repeated run does nothing."""
from sim import fw, kernel, regs

PROP = "C05"
QUICK = 7000
THOROUGH = 400000
RULE = ("Random plans with pure sources, dependent sources, stored calls / literals / gathers, over in-memory stores in "
        "arbitrary states (missing, old, equal modified times), with and without output and fresh_time; the executed "
        "calls, reads and writes of each run are compared with a declarative oracle; then the run is repeated.")
REAL = fw.REAL_BASE
STUB = fw.STUB_BASE + ["value stores (in-memory, logical clock)"]
ASSUMPTIONS = ["stores return what was last written and their modified times increase with every write",
               "fresh_time is not in the future", "a source without any stored value or source upstream is out of "
               "date only when missing"]


def draw_fresh(ctx, w):
    g = ctx.gen
    if g.bool(0.6):
        return None
    times = sorted({t for _, t in w.state.values()})
    if times and g.bool(0.8):
        t = g.choice(times)
        return t + g.choice([0, -1, 1])
    return w.now_us


def compare(ctx, w, out, pred, what=""):
    if regs.hang(out):
        ctx.count("hang_left_to_C07")
        return False
    if out.status != "returned":
        ctx.fail("raised", f"{what}run raised {type(out.exc).__name__}: {out.exc.__cause__!r}")
    for name, got, want in (("calls", w.calls, pred["calls"]), ("writes", w.writes, pred["writes"]),
                            ("reads", w.reads, pred["reads"])):
        label = {"calls": "call n", "writes": "write of store ", "reads": "read of store "}[name]
        for k, c in sorted(got.items()):
            if k not in want:
                ctx.fail("extra-" + name, f"{what}{label}{k} was performed although nothing required it "
                                          f"(out of date: {sorted(pred['ood'])})")
            if c != 1:
                ctx.fail("repeated-" + name, f"{what}{label}{k} was performed {c} times")
        for k in sorted(want):
            if k not in got:
                ctx.fail("missing-" + name, f"{what}{label}{k} was not performed although required "
                                            f"(out of date: {sorted(pred['ood'])})")
    return True


def case(ctx):
    g = ctx.gen
    w = regs.RegWorld(ctx, n_max=g.choice([6, 12, 20]), p_dep=g.choice([0, 1]), forms=g.choice([(0,), (0, 1, 2, 3)]))
    ctx.note("plan", w.describe())
    if g.bool(0.75):
        w.randomise_state(odd=False)
    for k in range(g.int(1, 2)):
        cfg = regs.draw_config(ctx)
        output = w.draw_output(0.4)
        fresh = draw_fresh(ctx, w)
        pred = w.predict(output, fresh)
        ctx.note("state", w.describe_state(), "output", output, "fresh", fresh and fresh - kernel.EPOCH_US, "cfg", cfg)
        ctx.count("out_of_date_nodes", len(pred["ood"]))
        ctx.distinct("ood_patterns", (tuple(sorted(pred["ood"])), len(w.nodes)))
        sim, out = w.run(output=output, fresh_us=fresh, fresh_form=g.choice(w.forms), cfg=cfg)
        if not compare(ctx, w, out, pred):
            return
        # repeated at once, without output
        cfg = regs.draw_config(ctx)
        left = w.predict(None, fresh)
        odd = any(n.is_source and n.id in left["ood"] for n in w.nodes)
        sim, out = w.run(output=None, fresh_us=fresh, fresh_form=g.choice(w.forms), cfg=cfg)
        if not odd:
            for name in ("calls", "reads", "writes"):
                if left[name]:
                    raise fw.HarnessError(f"model: {name} {left[name]} left after a successful run")
        if not compare(ctx, w, out, left, "repeated "):
            return
        # something changes for the next round
        for sid in w.sources:
            if g.bool(0.3):
                w.now_us += 5
                w.set_source(sid)
                ctx.fault("source_update")
        for sid in sorted(w.state):
            if sid not in w.sources and g.bool(0.15):
                del w.state[sid]
                ctx.fault("stored_value_deleted")
