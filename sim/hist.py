"""Histories over a RegWorld: runs that succeed, fail, are interrupted or die; source updates; deletions; fresh_time."""
from sim import kernel, plans, regcases, regs


class History:
    def __init__(self, ctx, w):
        self.ctx = ctx
        self.w = w
        self.fresh = None
        self.log = []

    def note(self, *a):
        self.ctx.note(*a)

    def perturb(self):
        """What happens between two runs."""
        ctx, w, g = self.ctx, self.w, self.ctx.gen
        what = g.weighted([("none", 2), ("update", 4), ("delete", 3), ("fresh", 2), ("many", 1)])
        if what in ("update", "many") and w.sources:
            for sid in g.sample(w.sources, g.int(1, len(w.sources)) if what == "many" else 1):
                self.idle()
                w.set_source(sid)
                ctx.fault("source_update")
                self.note("source", sid, "updated")
        if what in ("delete", "many"):
            have = sorted(s for s in w.state if s not in w.sources)
            if have:
                for sid in g.sample(have, g.small(1, min(3, len(have)))):
                    w.drop(sid)
                    ctx.fault("stored_value_deleted")
                    self.note("stored value", sid, "deleted")
        if what in ("fresh", "many"):
            self.advance_fresh()

    def idle(self):
        self.w.now_us += self.ctx.gen.choice([1, 5, 1000])

    def advance_fresh(self):
        w, g = self.w, self.ctx.gen
        times = sorted({t for _, t in w.state.values() if self.fresh is None or t >= self.fresh})
        now = max(w.now_us, w.last_mtime)
        if times and g.bool(0.7):
            f = g.choice(times) + g.choice([0, 1, -1])
        else:
            f = now
        f = min(f, now)
        if self.fresh is None or f > self.fresh:
            self.fresh = f
            self.ctx.fault("fresh_time_advanced")
            self.note("fresh_time", f - kernel.EPOCH_US)

    def run(self, mode, output, before=None, **kw):
        """One run. mode: ok, fail, stale-fail, interrupt, cut, kill."""
        ctx, w, g = self.ctx, self.w, self.ctx.gen
        cfg = regs.draw_config(ctx)
        w.scripts = {}
        cut = None
        ki_at = None
        if mode == "fail":
            regcases.script_failures(ctx, w, g.choice([0.1, 0.3]), kinds=plans.EXC_KINDS)
            cfg["max_errors"] = g.choice([0, 0, 1, None])
        elif mode == "stale-fail":
            regcases.script_failures(ctx, w, 0.3, ops=("mt",))
        elif mode in ("cut", "kill"):
            n = max(1, len(w.nodes))
            cut = (g.small(1, 2 * n), g.choice(["before", "after"]),
                   "kill" if mode == "kill" else g.choice(["raise", "base"]))
            if mode == "cut":
                cfg["max_errors"] = g.choice([0, 1, None])
        elif mode == "interrupt":
            ki_at = g.small(0, 2 * len(w.nodes))
        if g.bool(0.15):
            cfg["retry"] = 2
        self.note("run", mode, "cfg", cfg, "output", output, "scripts", w.scripts, "cut", cut, "ki", ki_at)
        st = {"n": 0, "sent": False}

        def setup(sim):
            if ki_at is not None:
                sim.main_first_after_interrupt = True

                def on_op(kind, ident):
                    st["n"] += 1
                    if st["n"] > ki_at and not st["sent"]:
                        st["sent"] = True
                        sim.interrupt(KeyboardInterrupt("simulated Ctrl-C"))
                w.on_op = on_op
            if before is not None:
                before(sim)
        sim, out = w.run(output=output, fresh_us=self.fresh, fresh_form=g.choice(w.forms), cfg=cfg, cut=cut,
                         before=setup, **kw)
        if w.fails:
            ctx.fault("op_raises", len(w.fails))
        if st["sent"]:
            ctx.fault("sigint")
        if w.cut_fired:
            ctx.fault("crash" if w.cut_fired[3] == "kill" else "cut_" + w.cut_fired[2])
            self.note("cut at", w.cut_fired)
        w.scripts = {}
        ctx.count("history_runs:" + mode + ":" + out.status)
        return sim, out


MODES = [("ok", 3), ("fail", 3), ("cut", 2), ("kill", 2), ("interrupt", 2), ("stale-fail", 0.5)]


def check_correct(ctx, w, output, out, what):
    """After a successful run: output and every non-source store as from scratch on the current sources."""
    view, raw = w.scratch()
    if output is not None:
        want = regs.eval_expr(output, view)
        if not regs.eq(want, out.value):
            ctx.fail("output", f"{what} returned {out.value!r}, from-scratch evaluation gives {want!r}")
    for n in w.nodes:
        if n.sid is None or n.kind == "src":
            continue
        st = w.state.get(n.sid)
        if st is None:
            ctx.fail("missing", f"after {what} store {n.sid} (n{n.id}) holds no value")
        if not regs.eq(st[0], raw[n.id]):
            ctx.fail("stored", f"after {what} store {n.sid} (n{n.id}) holds {st[0]!r}, from-scratch evaluation gives "
                               f"{raw[n.id]!r}")


def check_not_misleading(ctx, w, fresh, what):
    """C08: a store that is not out of date holds its from-scratch value."""
    view, raw = w.scratch()
    ood = w.out_of_date(fresh)
    for n in w.nodes:
        if n.sid is None or n.kind == "src" or n.id in ood:
            continue
        if not regs.eq(w.state[n.sid][0], raw[n.id]):
            ctx.fail("looks-fresh", f"after {what} store {n.sid} (n{n.id}) looks up to date but holds "
                                    f"{w.state[n.sid][0]!r} instead of its from-scratch value {raw[n.id]!r}")
    return ood
