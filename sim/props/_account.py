"""The rules of the progress account, shared by C15 and its registry variant."""
import collections

import uberjob
from sim import plans


def make_progress(ctx, observers):
    g = ctx.gen
    pts = g.bool(0.3)
    n = g.weighted([(1, 3), (2, 2), (3, 1)])
    ps = [plans.recording_progress(observers, pts) for _ in range(n)]
    if n == 1:
        return ps[0] if g.bool(0.6) else [ps[0]]
    how = g.choice(["tuple", "list", "composite", "nested", "gen"])
    if how == "tuple":
        return tuple(ps)
    if how == "list":
        return ps
    if how == "gen":
        return iter(ps)
    if how == "composite":
        return uberjob.progress.composite_progress(*ps)
    return [ps[0], uberjob.progress.composite_progress(*ps[1:])]


class Extras:
    """A transform_physical that may copy the plan and may add calls to it; their executions are counted."""

    def __init__(self, ctx):
        g = ctx.gen
        self.ran, self.failed = collections.Counter(), collections.Counter()
        self.copy = g.bool(0.4)
        self.specs = [(g.choice([(), ("s",), ("s", 1), ("extra",)]), g.bool(0.5), g.bool(0.2), g.small(0, 3))
                      for _ in range(g.weighted([(1, 4), (2, 2), (0, 1)]))]
        self.pick = [g.decide(1 << 16) for _ in range(8)]
        self.raises = g.bool(0.12)
        ctx.note("transform_physical", self.copy, self.specs)

    def __call__(self, plan, output_node):
        if self.copy:
            plan = plan.copy()
        nodes = list(plan.graph.nodes())
        for i, (scope, wrap, bad, n_deps) in enumerate(self.specs):
            with plan.scope(*scope):
                wrap = wrap and output_node is not None
                call = plan.call(self.make(i, scope, bad), *([output_node] if wrap else []))
            for k in range(n_deps):
                if nodes:
                    plan.add_dependency(nodes[self.pick[(i + k) % 8] % len(nodes)], call)
            if wrap:
                output_node = call
        if self.raises:
            raise LookupError("the transformation fails")
        return plan, output_node

    def make(self, i, scope, bad):
        def fn(*args):
            self.ran[scope_of(scope, fn)] += 1
            if bad:
                self.failed[scope_of(scope, fn)] += 1
                raise ValueError("extra")
            return args[0] if args else None
        fn.__module__, fn.__name__, fn.__qualname__ = "user", f"fn_extra{i}", f"fn_extra{i}"
        return fn


def scope_of(scope, fn):
    return (*scope, f"{fn.__module__}.{fn.__qualname__}")


def check_all(ctx, observers, out, *, executed, failed, is_user, dry, stale, stale_key=None):
    for o in observers:
        ctx.check(o.entered == 1, "enter", lambda: f"observer entered {o.entered} times")
        ctx.check(o.exited == 1, "exit", lambda: f"observer exited {o.exited} times")
        ev = o.events
        ctx.count("notifications", len(ev))
        ctx.check(ev[0][0] == "enter", "enter-first", lambda: f"notification {ev[0]} before the observer was entered")
        ctx.check(ev[-1][0] == "exit", "exit-last", lambda: f"notification {ev[-1][:3]} after the observer was exited")
        total = collections.Counter()
        running = collections.Counter()
        completed = collections.Counter()
        failures = collections.Counter()
        ever = collections.Counter()
        for e in ev[1:-1]:
            k = e[1:3] if len(e) > 2 else None
            if e[0] == "total":
                total[k] += e[3]
                ctx.check(not ever[k], "total-late", lambda: f"total for {k} announced after it was reported running")
            elif e[0] == "running":
                ctx.check(total[k] > 0, "running-before-total", lambda: f"{k} reported running before its total")
                running[k] += 1
                ever[k] += 1
                ctx.check(ever[k] <= total[k], "more-than-total", lambda: f"{k}: more calls running than announced")
            elif e[0] in ("completed", "failed"):
                ctx.check(running[k] > 0, "not-running", lambda: f"{k} reported {e[0]} while nothing in it was running")
                running[k] -= 1
                (completed if e[0] == "completed" else failures)[k] += 1
            else:
                ctx.fail("order", f"unexpected notification {e}")
        left = +running
        ctx.check(not left, "still-running", lambda: f"run is over but {dict(left)} still reported running")
        if out.status == "returned" and not dry:
            for k in total:
                ctx.check(completed[k] == total[k], "incomplete",
                          lambda: f"successful run, but {k} has {completed[k]} of {total[k]} completed")
        # user calls per scope
        run_ev = collections.Counter({k[1]: v for k, v in ever.items() if k[0] == "run" and is_user(k[1])})
        ctx.check(run_ev == +executed, "executed-scopes",
                  lambda: f"calls reported running per scope {dict(run_ev)} differ from executed {dict(executed)}")
        run_failed = collections.Counter({k[1]: v for k, v in failures.items() if k[0] == "run" and is_user(k[1])})
        ctx.check(run_failed == +failed, "failed-scopes",
                  lambda: f"calls reported failed per scope {dict(run_failed)} differ from {dict(failed)}")
        if out.status == "returned" and not dry:
            run_tot = collections.Counter({k[1]: v for k, v in total.items() if k[0] == "run" and is_user(k[1])})
            ctx.check(run_tot == +executed, "run-totals",
                      lambda: f"'run' totals per scope {dict(run_tot)} differ from executed calls {dict(executed)}")
        if out.status == "returned" and stale is not None:
            st = collections.Counter()
            for k, v in total.items():
                if k[0] == "stale":
                    st[stale_key(k[1]) if stale_key else k[1]] += v
            ctx.check(st == +stale, "stale-totals",
                      lambda: f"'stale' totals {dict(st)} differ from the calls examined {dict(stale)}")
    for o in observers[1:]:
        ctx.check(norm(o.events) == norm(observers[0].events), "forwarding",
                  "members of a composite observer received different notifications")


def norm(events):
    """Composite members are notified one after the other, so only multisets and per-call order can be compared."""
    return collections.Counter(tuple(e[:4]) if e[0] == "total" else (*e[:3], id(e[3])) if e[0] == "failed" else tuple(e[:3])
                               for e in events)
