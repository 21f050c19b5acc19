"""Registry variants of the plan-level properties."""
import collections
import gc
import weakref

import uberjob
from sim import kernel, plans, regs
from sim.props import _account as account


# ------------------------------------------------------------------ requirements between operations

class Order:
    """What has to be complete before each operation of a run may begin, from the reference model only."""

    def __init__(self, w, ood):
        self.w = w
        self.ood = ood
        self._eval = {}

    def value(self, nid):
        n = self.w.nodes[nid]
        if n.sid is None:
            return self.eval(nid)
        ops = {("read", n.sid)}
        if nid in self.ood:
            ops |= self.plain(nid)
        return ops

    def plain(self, nid):
        n = self.w.nodes[nid]
        if n.sid is None:
            return self.eval(nid)
        if nid not in self.ood:
            return set()
        if n.is_source:
            return self.preds(nid)
        return {("write", n.sid)} | self.eval(nid)

    def eval(self, nid):
        ops = self.preds(nid)
        return ops | {("call", nid)} if self.w.nodes[nid].kind == "call" else ops

    def preds(self, nid):
        r = self._eval.get(nid)
        if r is None:
            v, p = self.w.preds(self.w.nodes[nid])
            r = set()
            for a in v:
                r |= self.value(a)
            for a in p:
                r |= self.plain(a)
            self._eval[nid] = r
        return r

    def before(self, kind, ident):
        if kind == "call":
            return self.preds(ident)
        n = self.w.node_of[ident]
        if kind == "write":
            return self.eval(n.id)
        return self.plain(n.id)


def watch_order(w, ood, bad):
    order = Order(w, ood)

    def on_op(kind, ident):
        if kind == "mt":
            return
        for op in order.before(kind, ident):
            if op not in w.done:
                bad.append(((kind, ident), op))
    w.on_op = on_op
    return order


def name(op):
    return f"call n{op[1]}" if op[0] == "call" else f"{op[0]} of store {op[1]}"


def script_failures(ctx, w, p, kinds=plans.ONLY_EXCEPTION, attempts=1, ops=("call", "read", "write")):
    """Chooses operations that raise (their first 1..attempts attempts)."""
    g = ctx.gen
    out = {}
    for n in w.nodes:
        if n.kind == "call" and "call" in ops and g.bool(p):
            out["call", n.id] = tuple(g.choice(kinds) for _ in range(g.int(1, attempts)))
        if n.sid is not None:
            for k in ("read", "write", "mt"):
                if k in ops and g.bool(p):
                    out[k, n.sid] = tuple(g.choice(kinds) for _ in range(g.int(1, attempts)))
    w.scripts = out
    return out


def draw_world(ctx, **kw):
    g = ctx.gen
    args = dict(n_max=g.choice([5, 10, 18]), p_dep=g.choice([0, 1]))
    args.update(kw)
    w = regs.RegWorld(ctx, **args)
    if g.bool(0.8):
        w.randomise_state(odd=False)
    ctx.note("plan", w.describe())
    ctx.note("state", w.describe_state())
    return w


def draw_fresh(ctx, w, p=0.4):
    g = ctx.gen
    if not g.bool(p):
        return None
    times = sorted({t for _, t in w.state.values()})
    if times and g.bool(0.8):
        return g.choice(times) + g.choice([0, -1, 1])
    return w.now_us


# ------------------------------------------------------------------ C01

def case_c01(ctx):
    g = ctx.gen
    w = draw_world(ctx, p_lit=g.choice([0.08, 0.3]))
    cfg = regs.draw_config(ctx)
    output = w.draw_output()
    fresh = draw_fresh(ctx, w)
    ood = w.out_of_date(fresh)
    if g.bool(0.3):
        script_failures(ctx, w, 0.1, ops=("call", "write"))
        cfg["max_errors"] = g.choice([0, 1, None])
    ctx.note("cfg", cfg, "output", output, "scripts", w.scripts)
    bad = []

    def before(sim):
        watch_order(w, ood, bad)
    sim, out = w.run(output=output, fresh_us=fresh, cfg=cfg, before=before)
    ctx.fault("op_raises", len(w.fails))
    calls = [b for b in bad if b[0][0] == "call"]
    if calls:
        a, b = calls[0]
        ctx.fail("order", f"{name(a)} started before {name(b)} had finished successfully")
    if regs.hang(out):
        ctx.count("hang_left_to_C07")


# ------------------------------------------------------------------ C06

def case_c06(ctx):
    g = ctx.gen
    w = draw_world(ctx)
    ops = g.choice([("call", "read", "write"), ("mt",), ("write",), ("read",), ("call", "mt")])
    base = g.bool(0.2)
    script_failures(ctx, w, g.choice([0.1, 0.3, 0.7]), kinds=plans.EXC_KINDS if base else plans.ONLY_EXCEPTION, ops=ops)
    cfg = regs.draw_config(ctx)
    cfg["max_errors"] = g.choice([0, 0, 1, None])
    output = w.draw_output()
    fresh = draw_fresh(ctx, w)
    ood = w.out_of_date(fresh)
    ctx.note("cfg", cfg, "output", output, "scripts", w.scripts)
    bad = []
    sim, out = w.run(output=output, fresh_us=fresh, cfg=cfg, before=lambda sim: watch_order(w, ood, bad))
    ctx.fault("op_raises", len(w.fails))
    failed = {(k, i) for k, i, _ in w.fails}
    for a, b in bad:
        if b in failed:
            ctx.fail("downstream", f"{name(a)} was started although {name(b)}, on which it depends, failed")
    if regs.hang(out):
        if w.fails:
            ctx.fail("no-error", f"{name(w.fails[0][:2])} failed but run did not raise: {out.status} ({out.detail})")
        return
    check_error(ctx, w, out, cfg, serial=cfg["max_workers"] == 1 and ops != ("mt",) and "mt" not in ops
                or "mt" in ops and (cfg.get("stale_check_max_workers") or cfg["max_workers"]) == 1)


def check_error(ctx, w, out, cfg, serial, final=None):
    fails = w.fails if final is None else final
    if not fails:
        if out.status == "raised":
            ctx.fail("spurious", f"nothing failed but run raised {type(out.exc).__name__}: {out.exc}")
        return
    if out.status == "returned":
        ctx.fail("returned", f"{name(fails[0][:2])} raised but run returned a value")
    e = out.exc
    if type(e) is not uberjob.CallError:
        ctx.fail("type", f"{name(fails[0][:2])} raised but run raised {type(e).__name__} instead of CallError: {e}")
    hit = [f for f in fails if f[2] is e.__cause__]
    if not hit:
        ctx.fail("cause", f"CallError.__cause__ is {type(e.__cause__).__name__} {e.__cause__}, not the very exception "
                          f"object that one of {[name(f[:2]) for f in fails]} raised")
    kind, ident, _ = hit[0]
    c = e.call
    if kind in ("read", "write"):
        if not names_store_op(w, c.fn, kind, ident):
            ctx.fail("call", f"{name(hit[0][:2])} failed with the reported exception but CallError.call is a call to "
                             f"{getattr(c.fn, '__qualname__', c.fn)}")
    else:
        n = w.nodes[ident] if kind == "call" else w.node_of[ident]
        if c is not n.sym and not (n.kind == "lit" and kind == "mt"):
            ctx.fail("call", f"{name(hit[0][:2])} failed with the reported exception but CallError.call is {c!r}")
    if serial and hit[0] is not fails[0]:
        ctx.fail("first", f"operations ran one at a time and {name(fails[0][:2])} failed first, but the error names "
                          f"{name(hit[0][:2])}")


def names_store_op(w, fn, kind, ident):
    """Whether fn stands for this operation of this store: the class's function, a bound method, or a wrapper of one."""
    fn = getattr(fn, "func", fn)
    owner = getattr(fn, "__self__", None)
    if owner is not None and any(owner is s for s in w.stores.values()) and owner is not w.stores[ident]:
        return False
    return getattr(fn, "__name__", None) == kind or fn is getattr(type(w.stores[ident]), kind)


# ------------------------------------------------------------------ C07

def case_c07(ctx):
    g = ctx.gen
    w = draw_world(ctx)
    cfg = regs.draw_config(ctx)
    cyc = g.bool(0.45)
    if g.bool(0.6):
        script_failures(ctx, w, g.choice([0.1, 0.4]), kinds=plans.EXC_KINDS,
                        ops=g.choice([("call", "read", "write", "mt"), ("mt",), ("call", "write")]))
        cfg["max_errors"] = g.choice([0, 1, None])
    output = w.draw_output()
    fresh = draw_fresh(ctx, w)
    deps = {n.id: set(w.all_preds(n)) for n in w.nodes}
    if cyc:
        add_cycle(ctx, w, deps)
    on_cycle = cycle_nodes(deps)
    ctx.note("cfg", cfg, "output", output, "scripts", w.scripts, "cycle", sorted(on_cycle))
    dry = g.bool(0.1)
    if on_cycle:
        ctx.fault("cycle")
        w._anc = {}
        w.ancestors = lambda nid: set()
    observers = []
    progress = plans.recording_progress(observers) if g.bool(0.3) else False
    sim, out = w.run(output=output, fresh_us=fresh, cfg=cfg, progress=progress, dry_run=dry)
    ctx.fault("op_raises", len(w.fails))
    if regs.hang(out):
        ctx.fail("hang", f"run never returns: {out.detail}")
    if out.unfinished:
        ctx.fail("thread-left", f"{len(out.unfinished)} thread(s) created by run were still alive when it {out.status}")
    late = sim.log[out.end_seq:]
    if late:
        ctx.fail("late-activity", f"activity after run {out.status}: {late[0]}")
    if w.running:
        ctx.fail("still-executing", f"{[name(r[0]) for r in w.running]} still executing when run {out.status}")
    if on_cycle and len(w.registry):
        # with a registry the stale check examines every node
        if out.status != "raised":
            ctx.fail("cycle-silent", f"nodes {sorted(on_cycle)} form a cycle but run returned")
        if w.attempts:
            ctx.fail("cycle-ran", f"nodes {sorted(on_cycle)} form a cycle but {name(min(w.attempts))} happened")


def add_cycle(ctx, w, deps):
    g = ctx.gen
    for _ in range(g.int(1, 2)):
        b = g.int(0, len(w.nodes) - 1)
        a = g.int(0, b)
        if w.nodes[a].sym is None:
            continue
        w.plan.add_dependency(w.nodes[b].sym, w.nodes[a].sym)
        deps[a].add(b)


def cycle_nodes(deps):
    def closure(starts):
        seen = set()
        todo = list(starts)
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo.extend(deps[x])
        return seen
    return {i for i in deps if i in closure(deps[i])}


# ------------------------------------------------------------------ C10

def case_c10(ctx):
    g = ctx.gen
    w = draw_world(ctx, n_max=g.choice([8, 16, 24]))
    retry_n = g.choice([1, 2, 3])
    ops = g.choice([(), ("call", "read", "write", "mt"), ("mt",), ("read", "write")])
    flaky = g.bool(0.6)
    script_failures(ctx, w, 0.35 if ops else 0, attempts=max(1, retry_n - 1) if flaky else retry_n + 1, ops=ops)
    if flaky and retry_n == 1:
        w.scripts = {}
    cfg = regs.draw_config(ctx)
    cfg["max_errors"] = g.choice([0, 1, None])
    limit = cfg["max_workers"] or 8
    stale_limit = cfg.get("stale_check_max_workers") or limit
    output = w.draw_output(0.2)
    fresh = draw_fresh(ctx, w)
    pred = w.predict(output, fresh)
    ctx.note("cfg", cfg, "retry", retry_n, "output", output, "scripts", w.scripts)
    kw = {"retry": retry_n} if retry_n > 1 else {}
    idle_bad = []

    def before(sim):
        def idle():
            if w.fails or not w.in_flight:
                return
            order = Order(w, pred["ood"])
            ready = [op for op in wanted if op not in w.begun and order.before(*op) <= set(w.done)]
            if ready and w.in_flight < limit and w.in_flight + len(ready) >= limit:
                idle_bad.append((w.in_flight, ready))
        sim.on_idle.append(idle)
    wanted = [("call", i) for i in sorted(pred["calls"])]
    sim, out = w.run(output=output, fresh_us=fresh, cfg=cfg, before=before, **kw)
    ctx.fault("op_raises", len(w.fails))
    if w.max_in_flight > limit:
        ctx.fail("max-workers", f"{w.max_in_flight} calls and store operations executed at the same time with "
                                f"max_workers={limit}")
    if w.max_mt_in_flight > stale_limit:
        ctx.fail("stale-workers", f"{w.max_mt_in_flight} modified-time queries executed at the same time with "
                                  f"stale_check_max_workers={stale_limit}")
    if idle_bad:
        f, r = idle_bad[0]
        ctx.fail("parallelism", f"only {f} operations in flight while {[name(x) for x in r]} were ready, with "
                                f"max_workers={limit}")
    ctx.distinct("in_flight_peaks", ("reg", limit, w.max_in_flight, stale_limit, w.max_mt_in_flight))
    if regs.hang(out):
        return
    final = []
    per = collections.Counter()
    for f in w.fails:
        per[f[:2]] += 1
        if per[f[:2]] == retry_n:
            final.append(f)
    stale_failed = any(f[0] == "mt" for f in final)
    for op, c in w.attempts.items():
        want = min(retry_n, len(w.scripts.get(op, ())) + 1)
        if c > retry_n:
            ctx.fail("attempts", f"{name(op)} was attempted {c} times with retry={retry_n}")
        if c != want:
            ctx.fail("attempts", f"{name(op)} was attempted {c} times, expected {want} "
                                 f"({len(w.scripts.get(op, ()))} failures scripted, retry={retry_n})")
    if not final:
        if out.status == "raised":
            ctx.fail("eventual-success", f"every operation eventually succeeded but run raised {out.exc!r}")
    else:
        if out.status == "returned":
            ctx.fail("swallowed", f"{name(final[0][:2])} exhausted its attempts but run returned")
        if type(out.exc) is uberjob.CallError and not any(f[2] is out.exc.__cause__ for f in final):
            ctx.fail("last-attempt", f"the reported exception {out.exc.__cause__!r} is not from the last attempt of an "
                                     f"exhausted operation")
    k = cfg["max_errors"]
    run_final = [f for f in final if f[0] != "mt"]
    if k is not None and len(run_final) > k + limit:
        ctx.fail("max-errors", f"{len(run_final)} operations failed with max_errors={k}, max_workers={limit}")
    if stale_failed:
        if any(op[0] != "mt" for op in w.attempts):
            ctx.fail("after-stale-failure", "a modified-time query failed but the plan was executed")
        return
    if k is None or len(run_final) <= k:
        order = Order(w, pred["ood"])
        doomed = {f[:2] for f in final}
        need = ([("call", i) for i in pred["calls"]] + [("read", i) for i in pred["reads"]]
                + [("write", i) for i in pred["writes"]])
        for op in sorted(need):
            if op not in w.attempts and not (order.before(*op) & doomed):
                ctx.fail("stopped-early", f"{name(op)} was not executed although none of its dependencies failed "
                                          f"({len(run_final)} failures, max_errors={k})")


# ------------------------------------------------------------------ C15

def case_c15(ctx):
    g = ctx.gen
    w = draw_world(ctx, scopes=True, crowd=0.01)
    retry_n = g.choice([1, 1, 2])
    if g.bool(0.5):
        script_failures(ctx, w, g.choice([0.1, 0.3]), attempts=retry_n,
                        ops=g.choice([("call", "read", "write"), ("mt",), ("call", "mt")]))
    cfg = regs.draw_config(ctx)
    cfg["max_errors"] = g.choice([0, 1, None])
    extras = None
    if g.bool(0.2):
        retry_n = 1
        extras = cfg["transform_physical"] = account.Extras(ctx)
    if retry_n > 1:
        cfg["retry"] = retry_n
    output = w.draw_output(0.2)
    fresh = draw_fresh(ctx, w)
    pred = w.predict(output, fresh)
    dry = g.bool(0.1)
    ctx.note("cfg", cfg, "output", output, "scripts", w.scripts, "dry", dry)
    observers = []
    progress = account.make_progress(ctx, observers)
    sim, out = w.run(output=output, fresh_us=fresh, cfg=cfg, progress=progress, dry_run=dry)
    ctx.fault("op_raises", len(w.fails))
    if regs.hang(out):
        ctx.count("hang_left_to_C07")
        return
    if not w.fails and not (extras and (extras.raises or extras.failed)) and out.status == "raised":
        ctx.fail("spurious", f"nothing failed but run raised {out.exc!r}")
    ran, failed = collections.Counter(), collections.Counter()
    scope_of = account.scope_of
    for n in w.nodes:
        if n.kind == "call" and ("call", n.id) in w.attempts:
            s = scope_of(n.scope, n.fn)
            ran[s] += 1
            if ("call", n.id) not in w.done:
                failed[s] += 1
    if extras:
        ran += extras.ran
        failed += extras.failed
    user = lambda s: bool(s) and isinstance(s[-1], str) and s[-1].startswith("user.fn")
    expect_stale = None
    account.check_all(ctx, observers, out, executed=ran, failed=failed, is_user=user, dry=dry, stale=expect_stale)
    # store operations: uberjob's own calls, grouped by the kind of function they call
    by_sid = {n.sid: n for n in w.nodes if n.sid is not None}
    for o in observers:
        ops = collections.Counter()
        bad_ops = collections.Counter()
        totals = collections.Counter()
        stale_total = 0
        stale_seen = collections.Counter()
        for e in o.events:
            if e[0] == "total" and e[1] == "stale":
                stale_total += e[3]
            if e[0] in ("completed", "failed") and e[1] == "stale":
                stale_seen[e[0]] += 1
            if len(e) > 2 and e[1] == "run":
                kind = op_kind(e[2])
                if kind:
                    if e[0] == "running":
                        ops[kind] += 1
                    elif e[0] == "failed":
                        bad_ops[kind] += 1
                    elif e[0] == "total":
                        totals[kind] += e[3]
        for kind in ("read", "write"):
            n_ops = sum(1 for op in w.attempts if op[0] == kind)
            ctx.check(ops[kind] == n_ops, "store-ops",
                      lambda: f"{ops[kind]} store {kind}s reported running, {n_ops} happened")
            n_bad = sum(1 for op in w.attempts if op[0] == kind and op not in w.done)
            ctx.check(bad_ops[kind] == n_bad, "store-op-failures",
                      lambda: f"{bad_ops[kind]} store {kind}s reported failed, {n_bad} failed")
            # an operation is counted under the user scope of the node whose store it is
            want = collections.Counter(by_sid[op[1]].scope for op in w.attempts if op[0] == kind)
            for us, k in want.items():
                have = sum(1 for e in o.events if e[0] == "running" and e[1] == "run" and op_kind(e[2]) == kind
                           and tuple(e[2][:len(us)]) == us)
                ctx.check(have >= k, "store-op-scope",
                          lambda: f"{k} store {kind}s of nodes with scope {us!r} happened, {have} are reported in it")
            if out.status == "returned":
                ctx.check(totals[kind] == len(pred[kind + "s"]), "store-op-totals",
                          lambda: f"{totals[kind]} store {kind}s announced, {len(pred[kind + 's'])} needed")
        # every call of the plan is examined by the stale check, including gathers and the output's own
        n_calls = count_calls(w, output)
        if len(w.registry):
            ctx.check(stale_total == n_calls, "stale-total",
                      lambda: f"'stale' totals add up to {stale_total}; the plan has {n_calls} calls to examine")
            want = collections.Counter(n.scope for n in w.nodes if n.kind != "lit")
            for us, k in want.items():
                have = sum(e[3] for e in o.events if e[0] == "total" and e[1] == "stale" and tuple(e[2][:len(us)]) == us)
                ctx.check(have >= k, "stale-scope",
                          lambda: f"{k} calls have scope {us!r}, {have} are announced for examination in it")
            if out.status == "returned":
                ctx.check(stale_seen["completed"] == n_calls, "stale-completed",
                          lambda: f"{stale_seen['completed']} calls reported examined of {n_calls}")


def op_kind(scope):
    last = scope[-1] if scope and isinstance(scope[-1], str) else ""
    if last.startswith("sim.regs.MemStore"):
        return "write" if last.endswith(".write") else "read" if last.endswith(".read") else None
    return None


def count_calls(w, output):
    """The calls the reference model says the plan has: plan calls, sources, gathers (one per container with a node)."""
    total = 0

    def containers(e):
        k = e[0]
        if k in ("node", "const") or not w.refs(e):
            return 0
        if k == "dict":
            # each item is itself gathered as a tuple
            return 1 + sum((1 if w.refs(a) or w.refs(b) else 0) + containers(a) + containers(b) for a, b in e[1])
        return 1 + sum(containers(x) for x in e[1])
    for n in w.nodes:
        if n.kind in ("call", "src", "dsrc"):
            total += 1
        if n.kind == "gather":
            total += containers(n.expr)
        for e in n.args:
            total += containers(e)
        for e in n.kwargs.values():
            total += containers(e)
    if output is not None:
        total += containers(output)
    return total


# ------------------------------------------------------------------ C16

def case_c16(ctx):
    """Results of stored and unstored calls, and values read back, are released."""
    from sim.props import c16
    g = ctx.gen
    w = draw_world(ctx, p_lit=0.05)
    cfg = regs.draw_config(ctx)
    if g.bool(0.3):
        script_failures(ctx, w, g.choice([0.1, 0.3]), ["value"])
        cfg["max_errors"] = None
    others = int(g.bool(0.15))
    progress = uberjob.progress.html_progress(lambda b: None) if others else False
    output = w.draw_output(0.2)
    fresh = draw_fresh(ctx, w)
    pred = w.predict(output, fresh)
    ctx.note("cfg", cfg, "output", output)
    serial = cfg["max_workers"] == 1
    ood, calls = pred["ood"], pred["calls"]
    consumers = collections.defaultdict(set)   # carrier -> operations that consume it
    unknown = set()                            # carriers consumed by uberjob's own calls (gathers)
    held = collections.defaultdict(set)        # carrier -> gathers holding it

    def carriers(nid):
        """the weakly tracked objects inside the value of node nid as its consumers receive it"""
        n = w.nodes[nid]
        if n.sid is not None:
            return {("read", n.sid)}
        if n.kind == "call":
            return {("ret", nid)}
        if n.kind == "gather":
            return set().union(*(carriers(r) for r in w.refs(n.expr)), set())
        return set()
    for n in w.nodes:
        if n.kind == "call" and n.id in calls:
            v, _ = w.preds(n)
            for a in v:
                for c in carriers(a):
                    consumers[c].add(("call", n.id))
            if n.sid is not None and n.id in ood:
                consumers["ret", n.id].add(("write", n.sid))
        if n.kind == "gather":
            inner = set().union(*(carriers(r) for r in w.refs(n.expr)), set())
            for c in inner:
                held[c].add(n.id)
            if n.sid is not None and n.id in ood:
                for c in inner:
                    consumers[c].add(("write", n.sid))
    out_carry = set()
    if output is not None:
        for r in w.refs(output):
            out_carry |= carriers(r)
    order = Order(w, ood)
    bad = []
    bad_ids = set()
    state = {"reported": None, "exempt": set()}

    def check(where, idle_worker=False):
        failed = {(k, i) for k, i, _ in w.fails}
        for c, ref in list(w.weak.items()):
            if c in bad_ids or c in out_carry or c in state["exempt"] or ref() is None:
                continue
            op = ("call", c[1]) if c[0] == "ret" else c
            if op not in w.done:
                continue
            if not consumers[c] <= {*w.done, *failed}:
                continue
            # a gather that uses it has certainly run when everything it needs has been computed and a worker is idle
            if held[c] and not idle_worker or any(not order.preds(h) <= set(w.done) for h in held[c]):
                continue
            gc.collect()
            if ref() is not None:
                by = consumers[c] & failed
                if by:
                    # the error that run will report, and only it, may still hold what its operation consumed
                    state["reported"] = set(by) if state["reported"] is None else state["reported"] & by
                    if state["reported"]:
                        state["exempt"].add(c)
                        continue
                bad_ids.add(c)
                bad.append((c, where, sorted(consumers[c])))

    def before(sim):
        w.weak = {}
        w.keep_exc = False

        def idle():
            check("all threads blocked", c16.free_worker(sim, w, others))
            ctx.count("liveness_checks")
        sim.on_idle.append(idle)
        if serial:
            def on_op(kind, ident):
                if kind != "mt":
                    check(f"start of {name((kind, ident))}")
            w.on_op = on_op
    sim, out = w.run(output=output, fresh_us=fresh, cfg=cfg, progress=progress, before=before)
    ctx.fault("op_raises", len(w.fails))
    ctx.count("results_tracked", len(w.weak))
    if bad:
        c, where, cons = bad[0]
        what = f"result of call n{c[1]}" if c[0] == "ret" else f"value read from store {c[1]}"
        ctx.fail("retained", f"the {what} is still referenced at '{where}' although its consumers "
                             f"{[name(x) for x in cons]} have all finished")
    out.value = None
    if out.status == "returned":
        gc.collect()
        alive = [c for c, r in w.weak.items() if r() is not None]
        if alive:
            ctx.fail("retained-after", f"results {alive} are still referenced after run returned")


# ------------------------------------------------------------------ C17

def case_c17(ctx):
    g = ctx.gen
    w = draw_world(ctx, n_max=g.choice([8, 14, 22]), min_nodes=3)
    cfg = regs.draw_config(ctx)
    cfg["max_errors"] = None
    output = w.draw_output(0.2)
    fresh = draw_fresh(ctx, w)
    observers = []
    prog = g.choice(["none", "rec", "html"])
    progress = {"none": False, "rec": plans.recording_progress(observers),
                "html": plans.html_display(ctx) if prog == "html" else None}[prog]
    phase = g.weighted([("run", 3), ("stale", 1)])
    how = g.choice(["op", "sync"])
    at = g.small(0, 3 * len(w.nodes)) if how == "op" else g.small(0, 150)
    ctx.note("cfg", cfg, "output", output, "interrupt", phase, how, at)
    limit = cfg["max_workers"] or 8
    stale_limit = cfg.get("stale_check_max_workers") or limit
    ki = KeyboardInterrupt("simulated Ctrl-C")
    st = {"n": -1, "info": None}

    def busy():
        return w.in_flight if phase == "run" else w.mt_in_flight

    def before(sim):
        sim.main_first_after_interrupt = True

        def send():
            ctx.fault("sigint")
            st["info"] = (set(w.running), dict(w.attempts))
            sim.interrupt(ki)

        def on_op(kind, ident):
            if (kind == "mt") == (phase == "stale"):
                st["n"] += 1
                if how == "op" and st["n"] == at and st["info"] is None:
                    send()
        w.on_op = on_op
        if how == "sync":
            def hook(cur):
                if busy() and st["info"] is None:
                    st["n"] += 1
                    if st["n"] >= at:
                        send()
            sim.sync_hook = hook
    sim, out = w.run(output=output, fresh_us=fresh, cfg=cfg, progress=progress, before=before)
    if st["info"] is None or sim.delivered_at is None:
        ctx.count("interrupt_after_end")
        return
    ctx.count("interrupts_delivered")
    running, attempts = st["info"]
    if regs.hang(out):
        ctx.fail("hang", f"run does not return after KeyboardInterrupt: {out.detail}")
    extra = sum(w.attempts.values()) - sum(attempts.values())
    allowed = max(0, (limit if phase == "run" else stale_limit) - len(running))
    if extra > allowed:
        ctx.fail("started-after", f"{extra} operations were started after KeyboardInterrupt arrived with "
                                  f"{len(running)} busy workers")
    if phase == "stale" and any(op[0] != "mt" for op in w.attempts):
        ctx.fail("started-after", "the plan was executed although the stale check was interrupted")
    if len(out.unfinished) == 1 and sim.delivered_in_start and not out.stuck:
        ctx.count("interrupted_inside_thread_start")
    elif out.unfinished:
        ctx.fail("thread-left", f"{len(out.unfinished)} thread(s) created by run were still alive when it raised")
    late = sim.log[out.end_seq:]
    if late:
        ctx.fail("late-activity", f"activity after run {out.status}: {late[0]}")
    if w.running:
        ctx.fail("not-waited", f"{[name(r[0]) for r in w.running]} were still executing when run {out.status}")
    if out.status != "raised" or not isinstance(out.exc, KeyboardInterrupt):
        ctx.fail("propagate", f"KeyboardInterrupt did not propagate: run {out.status} {out.exc!r}")
    for o in observers:
        if o.entered != 1 or o.exited != 1:
            ctx.fail("observer", f"observer entered {o.entered} and exited {o.exited} times")
    # the next run repairs
    view, raw = w.scratch()
    keep_on = w.out_of_date(fresh)
    for n in w.nodes:
        if n.sid is not None and n.id not in keep_on and n.kind != "src" and w.written.get(n.sid):
            if not regs.eq(w.state[n.sid][0], raw[n.id]):
                ctx.fail("looks-fresh", f"after the interrupt store {n.sid} looks up to date but does not hold its "
                                        f"from-scratch value")
