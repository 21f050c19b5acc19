"""C16: intermediate results are released as soon as their last consumer has finished."""
import gc
import weakref

import uberjob
from sim import fw, kernel, plans

PROP = "C16"
QUICK = 16000
THOROUGH = 300000
RULE = ("Random plans whose calls return fresh weak-referenceable objects that nothing but uberjob keeps; at every "
        "instant at which all threads are blocked (and at every call start with one worker) every result all of whose "
        "consumers have finished must be dead.")
REAL = fw.REAL_BASE
STUB = fw.STUB_BASE
ASSUMPTIONS = ["'a call has finished' is judged once its thread has begun another call or all threads are blocked, i.e. "
               "after the worker has done its bookkeeping",
               "values consumed by the call whose failure run reports are exempt (its traceback holds them)"]


class World(plans.PlanWorld):
    keep_exc = False

    def keep_result(self, nid, r):
        self.refs_[nid] = weakref.ref(r)


def case(ctx):
    g = ctx.gen
    if g.bool(0.25):
        from sim import regcases
        return regcases.case_c16(ctx)
    fails = g.bool(0.45)
    retry_n = g.choice([1, 1, 2])
    w = World(ctx, n_max=g.choice([6, 12, 24]), fail_rate=g.choice([0.15, 0.4]) if fails else None, retry_n=retry_n, p_lit=0.1,
              min_calls=g.choice([1, 3, 6]), p_gather=0.2, p_unpack=0.1, p_dep=g.choice([0, 1]), kinds=["value"])
    w.refs_ = {}
    cfg = plans.draw_config(ctx)
    if fails and g.bool(0.7):
        cfg["max_errors"] = g.choice([None, 5, 20])
    output = ("node", w.new_sink().id) if g.bool(0.6) else w.draw_output(0.05)
    ctx.note("plan", w.describe())
    ctx.note("cfg", cfg, "retry", retry_n, "output", output)
    needed_nodes = w.needed_nodes(output)
    out_ids = w.refs(output) if output is not None else set()
    # value flow: which calls consume which call results (through gathers, unpacks, nested containers)
    consumers = {n.id: set() for n in w.nodes}
    carried_out = set()

    def carriers(nid):
        """calls whose result object is inside the value of node nid"""
        n = w.nodes[nid]
        if n.kind == "call":
            return {nid}
        if n.kind == "item":
            return set().union(*(carriers(d) for d in item_src[nid]), set())
        if n.kind == "gather":
            return set().union(*(carriers(r) for r in w.refs(n.expr)), set())
        return set()
    item_src = w.item_src
    direct = {}
    for n in w.nodes:
        if n.id not in needed_nodes:
            continue
        if n.kind == "call":
            args = set().union(*(w.refs(e) for e in n.args), *(w.refs(e) for e in n.kwargs.values()), set())
            for a in args:
                for c in carriers(a):
                    consumers[c].add(n.id)
    for o in out_ids:
        carried_out |= carriers(o)
    # gathers and unpacks that nobody consumes as arguments still hold their inputs until they have run; they certainly
    # have once something that depends on them has started, or when their inputs have ended and a worker is idle
    holders = {}
    for n in w.nodes:
        if n.id in needed_nodes and n.kind in ("gather", "item"):
            for c in carriers(n.id) | inputs(w, n, carriers, item_src):
                holders.setdefault(c, set()).add(n.id)
    bad = []
    state = {"reported": None}

    def finished(nid):
        return nid in w.ended or w.failed.count(nid) >= retry_n

    def settled(nid):
        """a gather/item node certainly has run"""
        return (tasks.idle and not stopped() and free_worker(sim, w, tasks.others) and all(a in w.ended for a in w.call_ancestors(nid))
                or any(nid in w.ancestors(x) for x in [*w.ended, *(r[0] for r in w.running)]))

    def stopped():
        """too many calls have failed: what has not started never will"""
        k = cfg["max_errors"]
        return k is not None and sum(w.failed.count(a) >= retry_n for a in set(w.failed)) > k

    def check(where, current=None):
        for c, ref in list(w.refs_.items()):
            if c in bad_ids or c in carried_out:
                continue
            if c in w.ended and set(consumers[c]) <= {*w.ended, *w.failed}: ctx.count("releases_checked")
            if ref() is None or c in held:
                continue
            if c not in w.ended or not past(c):
                continue
            failed = {x for x in consumers[c] if x not in w.ended and w.failed.count(x) >= retry_n}
            if not all((x in w.ended or x in failed) and not running(x) and past(x) for x in consumers[c]):
                continue
            if any(not settled(h) for h in holders.get(c, ())):
                continue
            gc.collect()
            if ref() is None:
                continue
            if failed:
                # the error that run will report, and only it, may still hold what its call consumed
                ctx.count("held_by_a_failure")
                if state["reported"] is None:
                    state["reported"] = set(w.failed)
                state["reported"] &= failed
                if state["reported"]:
                    held.add(c)
                    continue
                bad_ids.add(c)
                bad.append((c, where, sorted(consumers[c])))
            else:
                bad_ids.add(c)
                bad.append((c, where, sorted(consumers[c])))
    bad_ids = set()
    held = set()
    tasks = Tasks()

    def past(nid):
        return tasks.past(nid)

    def running(nid):
        return any(r[0] == nid for r in w.running)

    def on_start(n, args, kwargs):
        tasks.begin(n.id)
        check(f"start of call {n.id}")
        ctx.count("liveness_checks")

    sim = ctx.new_sim()

    def idle():
        tasks.idle = True
        check("all threads blocked")
        ctx.count("liveness_checks")
        tasks.idle = False
    sim.on_idle.append(idle)
    w.on_start = on_start
    out_spec = None if output is None else w.build(output)
    res = {}
    # a display holds on to nothing either (its update thread is not a worker)
    tasks.others = int(g.bool(0.15))
    progress = uberjob.progress.html_progress(lambda b: None) if tasks.others else False

    def main():
        r = uberjob.run(w.plan, output=out_spec, progress=progress, retry=retry_n if retry_n > 1 else None, **cfg)
        res["r"] = None
        return None if r is None else True
    sim, out = ctx.run(main, sim=sim)
    ctx.fault("call_raises", len(w.failed))
    ctx.count("results_tracked", len(w.refs_))
    if bad:
        c, where, cons = bad[0]
        ctx.fail("retained", f"the result of call {c} is still referenced at '{where}' although its consumers {cons} "
                             f"have all finished")
    if out.status == "returned":
        gc.collect()
        alive = [c for c, r in w.refs_.items() if r() is not None]
        if alive:
            ctx.fail("retained-after", f"results of calls {alive} are still referenced after run returned")


class Tasks:
    """Which operations a thread has certainly left behind: it has begun another one since, or all threads are blocked."""

    def __init__(self):
        self.of = {}
        self.last = {}
        self.idle = False
        self.others = 0  # threads besides the main one and the workers

    def begin(self, op):
        t = kernel.S.sim.current.id
        self.of[op] = t
        self.last[t] = op

    def past(self, op):
        return self.idle or op in self.of and self.last[self.of[op]] != op


def free_worker(sim, w, others=0):
    """When all threads are blocked: is a worker waiting for work (so that nothing ready is left)?"""
    return sum(1 for t in sim.tasks[1:] if t.status != "done") > len(w.running) + others


def inputs(w, n, carriers, item_src):
    if n.kind == "gather":
        return set().union(*(carriers(r) for r in w.refs(n.expr)), set())
    return set().union(*(carriers(d) for d in item_src[n.id]), set())
