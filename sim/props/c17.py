"""C17: Ctrl-C during a run stops new work, waits for in-flight calls and cleans up."""
import uberjob
from sim import fw, plans

PROP = "C17"
QUICK = 15000
THOROUGH = 400000
RULE = ("Random plans interrupted by KeyboardInterrupt in the thread that called run, at a chosen call start, call step "
        "or synchronisation operation while a call is executing (including while workers are still being started and "
        "during the stale check), 1-8 workers, both schedulers, with recording and bundled observers; with a registry "
        "the next run must repair.")
REAL = fw.REAL_BASE
STUB = fw.STUB_BASE + ["signal delivery: KeyboardInterrupt raised in the simulated main thread at its next "
                       "interruptible operation"]
ASSUMPTIONS = ["the interrupted thread is scheduled promptly once the signal was sent (it runs whenever it is runnable)",
               "a worker that had already committed to its next call when the signal arrived may still start that one "
               "call; any more is a violation"]


def case(ctx):
    g = ctx.gen
    if g.bool(0.35):
        from sim import regcases
        return regcases.case_c17(ctx)
    fails = g.bool(0.2)
    w = plans.PlanWorld(ctx, crowd=0.004, n_max=g.choice([10, 20, 35]), fail_rate=0.15 if fails else None,
                        shape=g.choice(["wide", "layered", "random", "fan_out", "tree", "wide", "fan_in"]),
                        p_dep=g.choice([0, 1]), min_calls=3)
    cfg = plans.draw_config(ctx)
    if cfg.get("max_errors") is None or g.bool(0.5):
        cfg["max_errors"] = None
    output = ("list", [("node", n.id) for n in w.nodes])
    out_spec = w.build(output)
    observers = []
    prog = g.choice(["none", "rec", "html", "both"])
    html = plans.html_display(ctx) if prog in ("html", "both") else None
    progress = {"none": False, "rec": plans.recording_progress(observers), "html": html,
                "both": [plans.recording_progress(observers), html, plans.recording_progress(observers)]}[prog]
    ctx.note("plan", w.describe())
    ctx.note("cfg", cfg, "progress", prog)
    sim, out = interrupted_run(ctx, w, lambda: uberjob.run(w.plan, output=out_spec, progress=progress, **cfg),
                               len(w.calls))
    check(ctx, w, sim, out, cfg["max_workers"] or 8, observers)


def interrupted_run(ctx, w, fn, n_calls, attach=None):
    g = ctx.gen
    sim = ctx.new_sim()
    sim.main_first_after_interrupt = True
    how = g.choice(["start", "sync"])
    at = g.int(0, max(0, n_calls - 1)) if how == "start" else g.small(0, 120)
    ki = KeyboardInterrupt("simulated Ctrl-C")
    st = {"n": -1, "sent": False}
    w.ki = ki
    w.ki_info = None
    ctx.note("interrupt", how, at)

    def send():
        st["sent"] = True
        ctx.fault("sigint")
        w.ki_info = (len(sim.log), set(w.running), len(w.started))
        sim.interrupt(ki)

    prev = w.on_start

    def on_start(n, args, kwargs):
        if prev:
            prev(n, args, kwargs)
        st["n"] += 1
        if how == "start" and st["n"] == at and not st["sent"]:
            send()
    w.on_start = on_start
    if how == "sync":
        def hook(cur):
            if w.in_flight and not st["sent"]:
                st["n"] += 1
                if st["n"] >= at:
                    send()
        sim.sync_hook = hook
    sim, out = ctx.run(fn, sim=sim)
    w.on_start = prev
    return sim, out


def check(ctx, w, sim, out, workers, observers):
    if w.ki_info is None:
        return
    if out.status in ("deadlock", "steps"):
        ctx.fail("hang", f"run does not return after KeyboardInterrupt: {out.detail}")
    pos, running, n_started = w.ki_info
    if sim.delivered_at is None:
        ctx.count("interrupt_after_end")
        return
    ctx.count("interrupts_delivered")
    extra = len(w.started) - n_started
    # starts after the signal was sent: each worker not executing at that moment may have been past its last check
    allowed = max(0, workers - len(running))
    if extra > allowed:
        ctx.fail("started-after", f"{extra} calls were started after KeyboardInterrupt arrived with {len(running)} of "
                                  f"{workers} workers busy")
    if len(out.unfinished) == 1 and sim.delivered_in_start and not out.stuck:
        # the interrupt hit the wait inside Thread.start(), so nobody can know yet whether that thread exists; it
        # must (and did) exit on its own without starting anything
        ctx.count("interrupted_inside_thread_start")
    elif out.unfinished:
        ctx.fail("thread-left", f"{len(out.unfinished)} thread(s) created by run were still alive when it raised")
    late = sim.log[out.end_seq:]
    if late:
        ctx.fail("late-activity", f"activity after run {out.status}: {late[0]}")
    if w.running:
        ctx.fail("not-waited", f"calls {sorted(w.running)} were still executing when run {out.status}")
    if out.status != "raised" or not isinstance(out.exc, KeyboardInterrupt):
        ctx.fail("propagate", f"KeyboardInterrupt did not propagate: run {out.status} {out.exc!r}")
    for o in observers:
        if o.entered != 1 or o.exited != 1:
            ctx.fail("observer", f"observer entered {o.entered} and exited {o.exited} times")
