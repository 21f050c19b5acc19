"""C07: run always terminates and leaves nothing running; cycles are rejected up front."""
import uberjob
from sim import fw, plans

PROP = "C07"
QUICK = 20000
THOROUGH = 400000
RULE = ("Random plans, acyclic and cyclic (through calls, literals, gathers, self-loops), with failing calls, failing "
        "progress observers and failing thread starts, 1-8 workers, both schedulers, schedules with optional "
        "preemption between bytecodes; deadlock detector, step and instruction bounds.")
REAL = fw.REAL_BASE + ["bundled progress observers and their update thread (part of the cases)"]
STUB = fw.STUB_BASE
ASSUMPTIONS = ["preemption happens at synchronisation operations and between bytecodes of uberjob code",
               "no termination = no runnable thread, or more than 60000 scheduling points / 6000000 bytecodes of uberjob"]


class BadObserver(plans.RecordingObserver):
    where = ()

    def _ev(self, *e):
        super()._ev(*e)
        if len(self.events) in self.where:
            raise RuntimeError("observer fault")

    def __exit__(self, *a):
        self.exited += 1
        plans.RecordingObserver._ev(self, "exit", None)


def case(ctx):
    g = ctx.gen
    kind = g.weighted([("acyclic", 10), ("cycle", 4), ("threads", 3), ("observer", 2), ("bundled", 2), ("registry", 4)])
    ctx.count("kind:" + kind)
    if kind == "registry":
        from sim import regcases
        return regcases.case_c07(ctx)
    fail_rate = g.choice([None, 0.15, 0.5])
    base = g.bool(0.3)
    w = plans.PlanWorld(ctx, crowd=0.004, n_max=g.choice([6, 14, 30]), fail_rate=fail_rate,
                        kinds=plans.EXC_KINDS if base else plans.ONLY_EXCEPTION, p_dep=g.choice([0, 1]),
                        p_lit=g.choice([0.12, 0.3]), min_calls=g.int(0, 1))
    cfg = plans.draw_config(ctx)
    output = w.draw_output(0.1) if w.nodes else None
    on_cycle = set()
    if kind == "cycle" and w.nodes:
        on_cycle = add_cycle(ctx, w)
    ctx.note("kind", kind, "plan", w.describe())
    ctx.note("cfg", cfg, "output", output, "cycle", sorted(on_cycle))
    observers = []
    progress = False
    if kind == "observer":
        where = set(g.int(1, 25) for _ in range(g.int(1, 3)))
        ctx.note("observer fails at notification", sorted(where))

        def create():
            o = BadObserver()
            o.where = where
            observers.append(o)
            return o
        progress = uberjob.progress.Progress(create)
        ctx.fault("observer_raises")
    elif kind == "bundled":
        progress = [plans.html_display(ctx)]
    out_spec = None if output is None else w.build(output)
    sim = ctx.new_sim()
    if kind == "threads":
        bad = set(g.int(0, 8) for _ in range(g.int(1, 2)))
        ctx.note("failing thread starts", sorted(bad))

        def start_fault(i):
            if i in bad:
                ctx.fault("thread_start_fails")
                return True
            return False
        sim.start_faults = start_fault
        if g.bool(0.3):
            progress = [plans.html_display(ctx)]
    sim, out = ctx.run(lambda: uberjob.run(w.plan, output=out_spec, progress=progress, **cfg), sim=sim)
    if fail_rate:
        ctx.fault("call_raises", len(w.failed))
    check_terminated(ctx, w, sim, out)
    if on_cycle:
        ctx.fault("cycle")
        examined = w.cyc_examined(output)
        if examined:
            if w.started:
                ctx.fail("cycle-ran", f"the needed nodes {sorted(examined)} form a cycle but call {w.started[0]} executed")
            if out.status != "raised":
                ctx.fail("cycle-silent", f"the needed nodes {sorted(examined)} form a cycle but run returned")


def check_terminated(ctx, w, sim, out):
    if out.status == "deadlock":
        ctx.fail("hang", f"run never returns: {out.detail}")
    if out.status == "steps":
        ctx.fail("hang", f"run never returns: {out.detail}")
    if out.unfinished:
        ctx.fail("thread-left", f"{len(out.unfinished)} thread(s) created by run were still alive when it "
                                f"{out.status}")
    late = [e for e in sim.log[out.end_seq:]]
    if late:
        ctx.fail("late-activity", f"activity after run {out.status}: {late[0]}")
    if w is not None and w.running:
        ctx.fail("still-executing", f"calls {sorted(w.running)} were still executing when run {out.status}")


def add_cycle(ctx, w):
    """Adds back edges. Returns the ids of the nodes that lie on a cycle."""
    g = ctx.gen
    for _ in range(g.int(1, 2)):
        b = g.int(0, len(w.nodes) - 1)
        how = g.choice(["self", "back", "new_lits"])
        if how == "self":
            w.plan.add_dependency(w.nodes[b].sym, w.nodes[b].sym)
            w.nodes[b].deps.add(b)
        elif how == "back":
            a = g.int(0, b)
            w.plan.add_dependency(w.nodes[b].sym, w.nodes[a].sym)
            w.nodes[a].deps.add(b)
        else:
            k = g.int(1, 3)
            ids = []
            for _ in range(k):
                ids.append(w.add("lit", w.plan.lit(0), ()).id)
            for i in range(k):
                w.plan.add_dependency(w.nodes[ids[i]].sym, w.nodes[ids[(i + 1) % k]].sym)
                w.nodes[ids[(i + 1) % k]].deps.add(ids[i])
            w.plan.add_dependency(w.nodes[ids[0]].sym, w.nodes[b].sym)
            w.nodes[b].deps.add(ids[0])

    def closure(starts):
        seen = set()
        todo = list(starts)
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo.extend(w.nodes[x].deps)
        return seen

    cyc = {i for i in range(len(w.nodes)) if i in closure(w.nodes[i].deps)}

    def cyc_examined(output):
        if output is None:
            return set()
        return cyc & closure(w.refs(output))
    w.cyc_examined = cyc_examined
    w.ancestors = lambda nid: closure(w.nodes[nid].deps)
    return cyc
