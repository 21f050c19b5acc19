"""C08: a run cut short at any point leaves stores that the next run repairs correctly."""
from sim import diskworld, fsim, fw, hist, kernel, regs
from sim.props import c05

PROP = "C08"
QUICK = 5000
THOROUGH = 500000
RULE = ("A random plan with stores in a state reached by a short history; then 1-3 runs cut short: an operation (call, read, "
        "write, before or after its effect, or modified-time query) raises an Exception or BaseException, the process "
        "dies at an operation, or a KeyboardInterrupt arrives; a third of the cases keep the values in the bundled file "
        "stores on a simulated disk, where the cut is an I/O error, a torn write or process death at the k-th file "
        "operation.  After the cut every store that is not out of date must hold its from-scratch value, what was "
        "completely written must not be out of date, and a clean run must do exactly the predicted work and leave "
        "from-scratch values everywhere.")
REAL = fw.REAL_BASE + ["uberjob.stores file stores (file-backed cases)"]
STUB = fw.STUB_BASE + ["value stores (in-memory, logical clock) or the raw file / os.* seam and file times"]
ASSUMPTIONS = ["death = the process dies; what reached the kernel survives", "deterministic call functions",
               "modified times increase with every write", "sources are not updated while a run is in progress"]


def case(ctx):
    g = ctx.gen
    disk = g.bool(0.35)
    cls = diskworld.DiskWorld if disk else regs.RegWorld
    w = cls(ctx, n_max=g.choice([4, 7] if disk else [4, 8, 14]), p_dep=g.choice([0, 1]), p_reg=g.choice([0.4, 0.7, 0.95]),
            p_dsrc=g.choice([0, 0.15]), odd_sources=0.2, min_nodes=2)
    ctx.count("disk_cases" if disk else "memory_cases")
    ctx.note("plan", w.describe())
    h = hist.History(ctx, w)
    for _ in range(g.int(0, 2)):
        h.perturb()
        mode = g.weighted([("ok", 3), ("fail", 1)])
        sim, out = h.run(mode, w.draw_output(0.5))
        if regs.hang(out):
            ctx.count("hang_left_to_C07")
            return
    for i in range(g.int(1, 3)):
        if g.bool(0.6):
            h.perturb()
        pred = w.predict(None, h.fresh)
        ops = len(pred["calls"]) + len(pred["reads"]) + len(pred["writes"])
        if not ops and not g.bool(0.2):
            w.now_us += 10
            h.fresh = max(w.now_us, w.last_mtime)
            ctx.note("fresh_time now", h.fresh - kernel.EPOCH_US)
        if not cut_run(ctx, w, h, disk):
            return
    if g.bool(0.3):
        h.perturb()
    output = w.draw_output(0.4)
    pred = w.predict(output, h.fresh)
    ctx.note("state", w.describe_state())
    sim, out = h.run("ok", output)
    if not c05.compare(ctx, w, out, pred, "the run after the cut: "):
        return
    hist.check_correct(ctx, w, output, out, "the run after the cut")
    ctx.count("repairs_checked")


def cut_run(ctx, w, h, disk):
    """A run that is cut short; then the invariant."""
    g = ctx.gen
    modes = [("cut", 4), ("kill", 4), ("interrupt", 1), ("fail", 1), ("stale-fail", 0.5)]
    file_cut = None
    if disk and g.bool(0.75):
        mode = "ok"
        file_cut = draw_file_cut(ctx, w)
        w.fs.opno = 0
        w.fs.fired = None
        w.fs.plan = file_cut
    else:
        mode = g.weighted(modes)
    ctx.note("state", w.describe_state())
    sim, out = h.run(mode, w.draw_output(0.6))
    fired = None
    if disk:
        w.fs.plan = None
        fired = w.fs.fired
        w.fs.fired = None
        if fired:
            ctx.fault({"err": "io_error", "torn": "torn_write", "die-before": "process_death",
                       "die-after": "process_death"}[fired[3][0]])
            ctx.note("file operation", fired)
    if regs.hang(out):
        ctx.count("hang_left_to_C07")
        return False
    cut = w.cut_fired or fired or w.fails or out.status != "returned"
    ctx.count("cuts" if cut else "uncut")
    ood = hist.check_not_misleading(ctx, w, h.fresh, f"a run cut short ({mode}, {w.cut_fired or fired or out.status})")
    ctx.note("state after the cut", w.describe_state(), "out of date", sorted(ood))
    for sid in sorted(w.written):
        n = w.node_of[sid]
        if n.id not in ood:
            continue
        if any(odd_source(w, w.nodes[a]) for a in w.ancestors(n.id)):
            continue       # such a source is (or may become) older than what it depends on whatever uberjob does
        ctx.fail("wasted", f"store {sid} (n{n.id}) was completely written before the cut but is out of date afterwards")
    ctx.distinct("cut_sites", (w.cut_fired and (w.cut_fired[0], w.cut_fired[2], w.cut_fired[3]),
                               fired and (fired[1], fired[3][0]), tuple(sorted(ood)), len(w.nodes)))
    return True


def odd_source(w, n):
    """A source that depends on something without being refreshed after it."""
    if n.kind == "src":
        return bool(w.all_preds(n))
    return n.kind == "dsrc" and bool(w.all_preds(n) - {n.expr} - w.ancestors(n.expr))


def draw_file_cut(ctx, w):
    g = ctx.gen
    k = g.small(0, 14 * len(w.stores))
    act = g.weighted([("die-before", 4), ("die-after", 4), ("err", 3), ("torn", 2)])
    err = g.int(0, 3)

    def plan(no, kind, rel):
        if no < k or w.fs.fired is not None:
            return None
        if act == "err":
            if kind in ("remove", "rmdir", "mkdir", "read", "chmod", "utime"):
                return None
            return ("err", fsim.errnos_for(kind)[err % 3])
        if act == "torn":
            return ("torn", 3, fsim.ERRS_WRITE[err]) if kind == "write" else None
        return (act,)
    return plan
