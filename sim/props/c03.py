"""C03: an incremental run gives the same outputs and stored values as from scratch."""
from sim import fw, hist, regs

PROP = "C03"
QUICK = 6000
THOROUGH = 600000
RULE = ("Histories of 2-9 runs over random plans with pure and dependent sources, stored and unstored calls, literals and "
        "gathers and plain dependencies: successful runs, runs in which operations raise, runs cut at the k-th operation, "
        "runs interrupted by KeyboardInterrupt and runs whose process dies, mixed with source updates, deletions of "
        "stored values and advances of fresh_time; after every successful run the output and all stores are compared "
        "with a from-scratch evaluator.")
REAL = fw.REAL_BASE
STUB = fw.STUB_BASE + ["value stores (in-memory, logical clock)"]
ASSUMPTIONS = ["deterministic call functions", "stores return what was last written", "modified times increase with every "
               "write", "sources are not updated while a run is in progress", "fresh_time is not in the future"]


def case(ctx):
    g = ctx.gen
    w = regs.RegWorld(ctx, n_max=g.choice([4, 8, 14]), p_dep=g.choice([0, 1]), p_reg=g.choice([0.3, 0.55, 0.9]),
                      p_dsrc=g.choice([0, 0.1, 0.25]), forms=g.choice([(0,), (0, 1, 2, 3)]), odd_sources=0.3)
    ctx.note("plan", w.describe())
    h = hist.History(ctx, w)
    steps = g.int(1, 8)
    for i in range(steps + 1):
        if i:
            for _ in range(g.int(0, 2)):
                h.perturb()
        mode = "ok" if i == steps else g.weighted(hist.MODES)
        output = w.draw_output(0.3)
        ctx.note("state", w.describe_state())
        before_ood = w.out_of_date(h.fresh)
        ctx.distinct("ood_patterns", (tuple(sorted(before_ood)), len(w.nodes)))
        sim, out = h.run(mode, output)
        if regs.hang(out):
            ctx.count("hang_left_to_C07")
            return
        if out.status == "returned":
            hist.check_correct(ctx, w, output, out, f"successful run {i + 1}")
            ctx.count("successful_runs_checked")
        elif mode == "ok":
            ctx.fail("raised", f"run {i + 1}, in which nothing fails, raised {out.exc!r} from {out.exc.__cause__!r}")
