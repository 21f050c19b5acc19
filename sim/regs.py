"""Random plans with a registry over in-memory stores on a logical clock, and the reference model.

The model (kinds, expressions, dependencies, store states) is kept by the harness and never derived from uberjob's
graph.  `predict` is the declarative out-of-date / needed-work oracle; `scratch` is the from-scratch evaluator.
"""
import collections
import datetime as dt
import hashlib
import time
import weakref

import uberjob
from sim import kernel, plans
from sim.plans import eval_expr, make_exc

EPOCH = dt.datetime(1970, 1, 1)
ZONES = [dt.timezone.utc, dt.timezone(dt.timedelta(hours=5, minutes=30)), dt.timezone(dt.timedelta(hours=-8))]


def h(*parts):
    return hashlib.blake2b(repr(parts).encode(), digest_size=6).hexdigest()


class V(str):
    """A value travelling through a plan: a digest string with identity (and weak references)."""
    __slots__ = ("origin", "__weakref__")

    def __new__(cls, s, origin=None):
        self = str.__new__(cls, s)
        self.origin = origin
        return self

    def __repr__(self):
        return str.__repr__(self)


class MemStore(uberjob.ValueStore):
    def __init__(self, world, sid):
        self.world = world
        self.sid = sid

    def read(self):
        return self.world.store_read(self.sid)

    def write(self, value):
        return self.world.store_write(self.sid, value)

    def get_modified_time(self):
        return self.world.store_mtime(self.sid)

    def __repr__(self):
        return f"MemStore({self.sid})"


class MemStore2(MemStore):
    def write(self, value):
        return super().write(value)


class MemStore3(MemStore):
    """Equal to others and not hashable, as data classes are."""

    __hash__ = None

    def __eq__(self, other):
        return isinstance(other, MemStore3)


class RN:
    __slots__ = ("id", "kind", "sym", "args", "kwargs", "expr", "deps", "sid", "is_source", "steps", "scope",
                 "refreshes", "const", "fn", "private")

    def __init__(self, id, kind):
        self.id = id
        self.kind = kind
        self.sym = None
        self.args = []
        self.kwargs = {}
        self.expr = None
        self.deps = set()        # plain dependencies
        self.sid = None
        self.is_source = False
        self.steps = ()
        self.scope = ()
        self.refreshes = None    # sid of the dependent source that this call writes
        self.const = None
        self.fn = None
        self.private = False     # on the way from a refresher to its source: nothing else may depend on it

    @property
    def name(self):
        return f"n{self.id}"


class Crash(Exception):
    pass


class RegWorld:
    def __init__(self, ctx, *, n_max=12, p_src=0.2, p_dsrc=0.1, p_lit=0.08, p_gather=0.1, p_reg=0.55, durations=True,
                 forms=(0,), scopes=False, min_nodes=1, odd_sources=0.1, p_dep=0.6, registry_last=False,
                 crowd=0.0):
        self.ctx = ctx
        g = self.g = ctx.gen
        self.plan = uberjob.Plan()
        self.registry = uberjob.Registry()
        self.nodes = []
        self.stores = {}
        self.sources = []        # sids of pure source stores
        self.state = {}          # sid -> (value str, mtime_us)
        self.now_us = kernel.EPOCH_US
        self.last_mtime = self.now_us
        self.durations = durations
        self.time_scale = ctx.gen.weighted([(1, 14), (1000, 1), (20_000, 1), (400_000, 1)]) if durations else 1
        ctx.long = ctx.long or self.time_scale > 1
        self.forms = forms
        self.form = {}
        self.names = g.choice([None, 1, 2, 4]) if scopes else None
        self.scope_pool = [("s",), ("s", 1), (), ("t", (1, 2))] if scopes else None
        if scopes and g.bool(0.3):
            self.scope_pool = g.sample(plans.ODD_SCOPES, 4) + self.scope_pool[:3]
        self.store_steps = {}
        self.scripts = {}        # (kind, id) -> tuple of exception kinds for the first attempts
        self.shape = g.choice(["random", "chain", "layered", "wide", "diamonds"])
        self.node_of = {}
        self.reset()
        n = g.small(min_nodes, n_max) if g.bool(0.6) else g.int(min_nodes, n_max)
        self.p = dict(src=p_src, dsrc=p_dsrc, lit=p_lit, gather=p_gather)
        self.p_reg = p_reg
        for _ in range(n):
            kind = g.weighted([("call", max(0.05, 1 - p_src - p_dsrc - p_lit - p_gather)), ("src", p_src),
                               ("dsrc", p_dsrc), ("lit", p_lit), ("gather", p_gather)])
            getattr(self, "new_" + kind)()
        if p_dep and g.bool(p_dep):
            for _ in range(g.small(1, max(1, len(self.nodes) // 2))):
                self.new_dep(odd_sources)
        if crowd and g.bool(crowd):
            self.new_crowd()
        self.wipe_source_values()
        self._anc = {}

    # -- generation
    def pool(self):
        ns = [n for n in self.nodes if n.refreshes is None and not n.private]
        s = self.shape
        if s == "chain":
            return ns[-2:]
        if s == "layered":
            return ns[-6:]
        if s == "diamonds":
            return ns[-4:]
        return ns

    def expr(self, depth=0):
        g = self.g
        p = self.pool()
        if not p or g.bool(0.08):
            return ("const", g.int(0, 9))
        if depth < 2 and g.bool(0.2):
            kind = g.choice(["list", "tuple", "dict"])
            k = g.small(1, 3)
            if kind == "dict":
                return ("dict", [(("const", f"k{i}"), self.expr(depth + 1)) for i in range(k)])
            return (kind, [self.expr(depth + 1) for _ in range(k)])
        return ("node", g.choice(p).id)

    def refs(self, e):
        k = e[0]
        if k == "node":
            return {e[1]}
        if k == "const":
            return set()
        if k == "dict":
            return set().union(*(self.refs(b) for _, b in e[1]), set())
        return set().union(*(self.refs(x) for x in e[1]), set())

    def build(self, e):
        k = e[0]
        if k == "node":
            return self.nodes[e[1]].sym
        if k == "const":
            return e[1]
        if k == "dict":
            return {self.build(a): self.build(b) for a, b in e[1]}
        return {"list": list, "tuple": tuple}[k](self.build(x) for x in e[1])

    def lasting(self, ms):
        """Mostly milliseconds; in some worlds some steps take seconds, minutes or hours."""
        return ms if ms <= 0 or self.time_scale == 1 or self.g.bool(0.7) else ms * self.time_scale

    def steps(self):
        g = self.g
        if not self.durations:
            return ()
        return tuple(self.lasting(g.weighted([(0, 4), (-1, 2), (1, 2), (3, 1)])) for _ in range(g.int(0, 2)))

    def new_store(self):
        g = self.g
        sid = len(self.stores)
        cls = g.weighted([(MemStore, 6), (MemStore2, 3), (MemStore3, 2)])
        self.stores[sid] = cls(self, sid)
        self.store_steps[sid] = {k: self.steps() for k in ("read", "write", "mt")}
        self.form[sid] = g.choice(self.forms)
        return sid

    def _push(self, n):
        assert n.id == len(self.nodes)
        self.nodes.append(n)
        return n

    def _register(self, n):
        n.sid = self.new_store()
        self.registry.add(n.sym, self.stores[n.sid])
        self.node_of[n.sid] = n

    def _scope(self):
        return self.g.choice(self.scope_pool) if self.scope_pool else ()

    def new_src(self):
        n = RN(len(self.nodes), "src")
        n.sid = self.new_store()
        n.is_source = True
        n.scope = self._scope()
        with plans.entered(self.plan, n.scope, self.g):
            n.sym = self.registry.source(self.plan, self.stores[n.sid])
        self.node_of[n.sid] = n
        self.sources.append(n.sid)
        return self._push(n)

    def new_dsrc(self):
        r = self.new_call(register=False, refresher=True)
        last = r
        for _ in range(self.g.weighted([(0, 6), (1, 1), (2, 1), (3, 0.3)])):
            m = RN(len(self.nodes), "lit")
            m.const = V(h("lit", m.id), ("lit", m.id))
            m.sym = self.plan.lit(m.const)
            m.private = True
            m.deps.add(last.id)
            self.plan.add_dependency(last.sym, m.sym)
            last = self._push(m)
        n = RN(len(self.nodes), "dsrc")
        n.sid = self.new_store()
        n.is_source = True
        n.scope = self._scope()
        with plans.entered(self.plan, n.scope, self.g):
            n.sym = self.registry.source(self.plan, self.stores[n.sid])
        self.node_of[n.sid] = n
        r.refreshes = n.sid      # (set before anything else can refer to it)
        self.plan.add_dependency(last.sym, n.sym)
        n.deps.add(last.id)
        n.expr = r.id
        return self._push(n)

    def new_crowd(self):
        """Very many similar calls in one scope."""
        g = self.g
        pool, self.scope_pool = self.scope_pool, self.scope_pool and [g.choice(self.scope_pool)]
        names, self.names = self.names, self.names and 1
        for _ in range(g.choice([33, 65, 70, 130])):
            n = self.new_call()
            n.steps = ()
        self.scope_pool, self.names = pool, names

    def new_lit(self):
        n = RN(len(self.nodes), "lit")
        n.const = V(h("lit", n.id), ("lit", n.id))
        n.scope = self._scope()
        with plans.entered(self.plan, n.scope, self.g):
            n.sym = self.plan.lit(n.const)
        self._push(n)
        if self.g.bool(self.p_reg * 0.4):
            self._register(n)
        return n

    def new_gather(self):
        e = self.expr()
        if e[0] in ("node", "const"):
            e = ("list", [e])
        if not self.refs(e):
            return self.new_lit()
        n = RN(len(self.nodes), "gather")
        n.expr = e
        n.scope = self._scope()
        with plans.entered(self.plan, n.scope, self.g):
            n.sym = self.plan.gather(self.build(e))
        self._push(n)
        if self.g.bool(self.p_reg * 0.5):
            self._register(n)
        return n

    def new_call(self, register=None, refresher=False):
        g = self.g
        n = RN(len(self.nodes), "call")
        n.args = [self.expr() for _ in range(g.small(0, 3))]
        n.kwargs = {f"k{i}": self.expr() for i in range(g.small(0, 2))} if g.bool(0.2) else {}
        n.steps = self.steps()
        n.scope = self._scope()
        n.fn = self.make_fn(n)
        a = [self.build(e) for e in n.args]
        k = {x: self.build(e) for x, e in n.kwargs.items()}
        with plans.entered(self.plan, n.scope, self.g):
            n.sym = self.plan.call(n.fn, *a, **k)
        self._push(n)
        if register is None:
            register = g.bool(self.p_reg)
        if register:
            self._register(n)
        return n

    def new_dep(self, odd_sources):
        """A plain dependency; refreshers stay exclusive to their source."""
        g = self.g
        if len(self.nodes) < 2:
            return
        b = g.int(1, len(self.nodes) - 1)
        a = g.int(0, b - 1)
        na, nb = self.nodes[a], self.nodes[b]
        if na.sym is nb.sym or na.refreshes is not None or na.private:
            return
        if nb.kind == "src" and not g.bool(odd_sources):
            return
        self.plan.add_dependency(na.sym, nb.sym)
        nb.deps.add(a)

    # -- source values and states
    def wipe_source_values(self):
        for sid in self.sources:
            self.set_source(sid)

    def set_source(self, sid):
        self.state[sid] = (h("src", sid, self.tick_value()), self.tick())

    def tick_value(self):
        self._tv = getattr(self, "_tv", 0) + 1
        return self._tv

    def tick(self):
        sim = kernel.S.sim
        now = sim.now_us if sim is not None else self.now_us
        self.last_mtime = max(self.last_mtime + 1, now)
        return self.last_mtime

    def time_value(self, us, form):
        d = EPOCH + dt.timedelta(microseconds=us)
        if form == 0:
            return d
        return d.replace(tzinfo=dt.timezone.utc).astimezone(ZONES[form - 1])

    def reset(self):
        """Forget the events of the previous run."""
        self.calls = collections.Counter()
        self.reads = collections.Counter()
        self.writes = collections.Counter()
        self.mts = collections.Counter()
        self.attempts = collections.Counter()
        self.done = {}           # ('call'|'read'|'write'|'mt', id) -> log position of the successful end
        self.begun = {}          # first start position
        self.fails = []          # (kind, id, exception)
        self.keep_exc = True
        self.ret = {}            # nid -> object returned
        self.read_obj = {}       # sid -> object returned by the read
        self.in_flight = 0
        self.max_in_flight = 0
        self.mt_in_flight = 0
        self.max_mt_in_flight = 0
        self.running = set()
        self.opno = 0
        self.cut = None          # (op number, 'before'|'after', kind)
        self.dead = False
        self.durable = None
        self.online = []         # violations found while running
        self.on_op = None
        self.check_values = False
        self.cut_fired = None
        self.written = {}        # sid -> True for writes whose effect happened
        self.refs = self.__class__.refs.__get__(self)
        self.weak = None

    # -- operations
    def _op(self, kind, ident, steps, effect, is_mt=False):
        sim = kernel.S.sim
        if sim is None:
            raise RuntimeError("operation outside a run")
        if self.dead or sim.killing:
            raise kernel.SimKilled()
        key = (kind, ident)
        attempt = self.attempts[key]
        self.attempts[key] += 1
        pos = sim.ev(kind, ident)
        self.begun.setdefault(key, pos)
        self.running.add((key, attempt))
        if is_mt:
            self.mt_in_flight += 1
            self.max_mt_in_flight = max(self.max_mt_in_flight, self.mt_in_flight)
        else:
            self.in_flight += 1
            self.max_in_flight = max(self.max_in_flight, self.in_flight)
            self.opno += 1
        me = self.opno
        cut = self.cut if self.cut is not None and not is_mt and self.cut[0] == me else None
        exc = None
        try:
            if self.on_op is not None:
                self.on_op(kind, ident)
            if cut and cut[1] == "before":
                self._do_cut(cut, kind, ident)
            for s in steps:
                if s < 0:
                    sim.pause()
                elif s:
                    time.sleep(s / 1000)
                else:
                    sim.point()
            script = self.scripts.get(key, ())
            if attempt < len(script):
                raise make_exc(script[attempt], ident)
            r = effect()
            if cut and cut[1] == "after":
                self._do_cut(cut, kind, ident)
            return r
        except BaseException as e:
            exc = e
            raise
        finally:
            if not sim.killing:
                if is_mt:
                    self.mt_in_flight -= 1
                else:
                    self.in_flight -= 1
                self.running.discard((key, attempt))
                if exc is None:
                    self.done[key] = sim.ev(kind + "-end", ident)
                else:
                    self.fails.append((kind, ident, exc if self.keep_exc else None))
                    sim.ev(kind + "-fail", ident)
            exc = None

    def _do_cut(self, cut, kind, ident):
        sim = kernel.S.sim
        self.cut_fired = (kind, ident, cut[1], cut[2])
        if cut[2] == "raise":
            raise make_exc("value", ident)
        if cut[2] == "base":
            raise make_exc("base", ident)
        if cut[2] == "kill":
            self.durable = self.snapshot()
            self.dead = True
            sim.ev("process-death")
            sim.fail("crash", "simulated process death")
            raise kernel.SimKilled()
        raise AssertionError(cut)

    def make_fn(self, n):
        w = self

        def fn(*args, **kwargs):
            return w.execute(n, args, kwargs)
        fn.__name__ = fn.__qualname__ = f"fn{n.id % self.names if self.names else n.id}"
        fn.__module__ = "user"
        return fn

    def execute(self, n, args, kwargs):
        self.calls[n.id] += 1
        if self.check_values:
            self._check_args(n, args, kwargs)

        def effect():
            if n.refreshes is not None:
                self.eff_write(n.refreshes, h("c", n.id, args, sorted(kwargs.items())))
                kernel.S.sim.ev("refresh", n.refreshes)
        digest = h("c", n.id, args, sorted(kwargs.items()))
        self._op("call", n.id, n.steps, effect)
        r = V(digest, ("ret", n.id))
        if self.weak is not None:
            self.weak["ret", n.id] = weakref.ref(r)
        else:
            self.ret[n.id] = r
        return r

    def norm(self, sid, value):
        return h("N", sid, value)

    # what the stores do; a subclass keeps the values elsewhere
    def eff_read(self, sid):
        if sid not in self.state:
            raise OSError(f"store {sid} is empty")
        return self.state[sid][0]

    def eff_write(self, sid, value):
        self.state[sid] = (value, self.tick())

    def eff_mtime(self, sid):
        st = self.state.get(sid)
        return None if st is None else self.time_value(st[1], self.form[sid])

    def snapshot(self):
        return dict(self.state)

    def sync(self):
        """Update `state` from wherever the values are kept."""

    def drop(self, sid):
        del self.state[sid]

    def store_read(self, sid):
        self.reads[sid] += 1

        def effect():
            return V(self.norm(sid, self.eff_read(sid)), ("read", sid))
        r = self._op("read", sid, self.store_steps[sid]["read"], effect)
        if self.weak is not None:
            self.weak["read", sid] = weakref.ref(r)
        else:
            self.read_obj[sid] = r
        return r

    def store_write(self, sid, value):
        self.writes[sid] += 1
        v = value if type(value) is not V else str(value)

        def effect():
            self.eff_write(sid, v if isinstance(v, str) else h("S", v))
            self.written[sid] = True
            kernel.S.sim.ev("stored", sid)
        n = self.node_of[sid]
        if n.is_source:
            self.online.append(("source-written", f"source store {sid} was written"))
        if self.check_values and n.kind == "call" and value is not self.ret.get(n.id):
            self.online.append(("wrote-other", f"the value written to the store of n{n.id} is not the call's result"))
        return self._op("write", sid, self.store_steps[sid]["write"], effect)

    def store_mtime(self, sid):
        self.mts[sid] += 1

        return self._op("mt", sid, self.store_steps[sid]["mt"], lambda: self.eff_mtime(sid), is_mt=True)

    # -- value flow (identity of what consumers receive)
    def value_env(self):
        w = self

        class Env:
            def __getitem__(self, nid):
                n = w.nodes[nid]
                if n.sid is not None:
                    if n.sid not in w.read_obj:
                        w.ctx.fail("not-read", f"the value of n{nid} was used in this run although its store {n.sid} was not read")
                    return w.read_obj[n.sid]
                if n.kind == "call":
                    if nid not in w.ret:
                        w.ctx.fail("not-performed", f"the value of n{nid} was used in this run although the call was not performed")
                    return w.ret[nid]
                if n.kind == "lit":
                    return n.const
                return eval_expr(n.expr, self)
        return Env()

    def _check_args(self, n, args, kwargs):
        env = self.value_env()
        try:
            want = tuple(eval_expr(e, env) for e in n.args)
            wantk = {k: eval_expr(e, env) for k, e in n.kwargs.items()}
        except KeyError as e:
            self.online.append(("early-consumer", f"call n{n.id} started before store {e} had been read back"))
            return
        if not same(want, args) or not same(wantk, kwargs):
            self.online.append(("consumed", f"call n{n.id} received {args!r} {kwargs!r} with origins "
                                            f"{origins((args, kwargs))}, expected {origins((want, wantk))}"))

    # -- the model
    def preds(self, n):
        """(value predecessors, plain predecessors) of a node, as ids."""
        if n.kind == "gather":
            return self.refs(n.expr), n.deps
        vp = set()
        for e in n.args:
            vp |= self.refs(e)
        for e in n.kwargs.values():
            vp |= self.refs(e)
        return vp, n.deps

    def all_preds(self, n):
        v, p = self.preds(n)
        return v | p

    def ancestors(self, nid):
        r = self._anc.get(nid)
        if r is None:
            r = set()
            for d in self.all_preds(self.nodes[nid]):
                r.add(d)
                r |= self.ancestors(d)
            self._anc[nid] = r
        return r

    def out_of_date(self, fresh_us=None, state=None):
        """Ids of registered nodes that are out of date, from instants only."""
        state = self.state if state is None else state
        out = set()
        for n in self.nodes:
            if n.sid is None:
                continue
            st = state.get(n.sid)
            if st is None:
                out.add(n.id)
                continue
            anc = [self.nodes[a] for a in self.ancestors(n.id)]
            stored = [a for a in anc if a.sid is not None]
            if any(a.id in out for a in stored):
                out.add(n.id)
                continue
            pure_source = n.is_source and not stored
            if pure_source:
                continue
            if fresh_us is not None and st[1] < fresh_us:
                out.add(n.id)
            elif any(st[1] < state[a.sid][1] for a in stored):
                out.add(n.id)
        return out

    def predict(self, output, fresh_us=None, state=None):
        """The calls executed, stores read and stores written by a successful run."""
        state = self.state if state is None else state
        ood = self.out_of_date(fresh_us, state)
        calls, reads, writes = set(), set(), set()
        seen = set()

        def plain(nid):
            """a plain dependency on nid: it must be up to date (out-of-date ones are rebuilt anyway)"""
            n = self.nodes[nid]
            if n.sid is None:
                work(nid)

        def value(nid):
            """nid's value is consumed"""
            n = self.nodes[nid]
            if n.sid is None:
                work(nid)
            else:
                reads.add(n.sid)

        def work(nid):
            """nid itself is evaluated"""
            if nid in seen:
                return
            seen.add(nid)
            n = self.nodes[nid]
            if n.kind == "call":
                calls.add(nid)
            v, p = self.preds(n)
            for a in v:
                value(a)
            for a in p:
                plain(a)

        for nid in sorted(ood):
            n = self.nodes[nid]
            if not n.is_source:
                writes.add(n.sid)
            work(nid)
        if output is not None:
            for r in self.refs(output):
                value(r)
        return {"ood": ood, "calls": calls, "reads": reads, "writes": writes}

    def scratch(self, state=None):
        """From-scratch evaluation on the current source values: (views, raws) by node id."""
        state = self.state if state is None else state
        view, raw = {}, {}
        for n in self.nodes:
            if n.kind == "src":
                st = state.get(n.sid)
                raw[n.id] = None if st is None else st[0]
            elif n.kind == "dsrc":
                raw[n.id] = str(raw[n.expr])
            elif n.kind == "lit":
                raw[n.id] = n.const
            elif n.kind == "gather":
                raw[n.id] = eval_expr(n.expr, view)
            else:
                args = tuple(eval_expr(e, view) for e in n.args)
                kw = {k: eval_expr(e, view) for k, e in n.kwargs.items()}
                raw[n.id] = h("c", n.id, args, sorted(kw.items()))
            if n.sid is None:
                view[n.id] = raw[n.id]
            else:
                s = raw[n.id]
                if not isinstance(s, str) and s is not None:
                    s = h("S", s)
                elif s is not None:
                    s = str(s)
                raw[n.id] = s
                view[n.id] = self.norm(n.sid, s)
        return view, raw

    def draw_output(self, p_none=0.3):
        g = self.g
        if g.bool(p_none):
            return None
        k = g.choice(["node", "list", "tuple", "all"])
        ids = [n.id for n in self.nodes if n.refreshes is None and not n.private]
        if k == "node":
            return ("node", g.choice(ids))
        if k == "all":
            return ("list", [("node", i) for i in ids])
        ids = g.sample(ids, g.int(1, 3))
        return (k, [("node", i) for i in ids])

    def randomise_state(self, odd=True):
        """An arbitrary store state: values from scratch or stale, arbitrary (also equal) modified times."""
        g = self.g
        _, raw = self.scratch()
        base = self.now_us
        span = g.choice([3, 8, 40])
        mode = g.choice(["ordered", "random", "holes"])
        t = base
        for n in self.nodes:
            if n.sid is None:
                continue
            if n.kind == "src" and not g.bool(0.03 if odd else 0):
                t2 = base + g.int(0, span)
                if mode == "ordered":
                    t2 = base + n.id
                self.state[n.sid] = (self.state[n.sid][0], t2)
                continue
            if g.bool({"ordered": 0.06, "random": 0.12, "holes": 0.4}[mode]):
                self.state.pop(n.sid, None)
                continue
            if mode == "random":
                t = base + g.int(0, span)
            else:
                t = base + n.id + (g.int(-3, 3) if g.bool(0.15) else 0)
            v = raw[n.id]
            self.state[n.sid] = (v if v is not None else h("junk", n.sid), t)
        self.now_us = base + 2 * len(self.nodes) + span + 10
        self.last_mtime = self.now_us

    def output_matches(self, output, value):
        view, _ = self.scratch()
        return eq(eval_expr(output, view), value)

    def describe(self):
        out = []
        for n in self.nodes:
            d = f"n{n.id}={n.kind}"
            if n.kind == "call":
                d += f"(args={n.args}, kwargs={n.kwargs})"
            if n.expr is not None:
                d += f" expr={n.expr}"
            if n.deps:
                d += f" after={sorted(n.deps)}"
            if n.sid is not None:
                d += f" store={n.sid}"
            if n.refreshes is not None:
                d += f" refreshes={n.refreshes}"
            out.append(d)
        return "; ".join(out)

    def describe_state(self):
        return {sid: (v[0][:6], v[1] - kernel.EPOCH_US) for sid, v in sorted(self.state.items())}

    # -- running
    def run(self, *, output=None, fresh_us=None, fresh_form=0, cfg=None, sim=None, before=None, check_values=False,
            cut=None, wrap=None, **kw):
        self.reset()
        self.check_values = check_values
        self.cut = cut
        sim = sim or self.ctx.new_sim(start_us=max(self.now_us, self.last_mtime) + 1)
        if before is not None:
            before(sim)
        spec = None if output is None else self.build(output)
        ft = None if fresh_us is None else self.time_value(fresh_us, fresh_form)
        args = dict(progress=False)
        args.update(plans.given(self.ctx, cfg or {}))
        args.update(kw)
        def main():
            return uberjob.run(self.plan, registry=self.registry, output=spec, fresh_time=ft, **args)
        sim, out = self.ctx.run(main if wrap is None else lambda: wrap(main), sim=sim)
        self.now_us = sim.now_us
        if self.durable is not None:
            self.state = self.durable
            self.durable = None
        self.sync()
        return sim, out


def eq(a, b):
    """Equal values of the same shape (V and str are the same type here)."""
    if isinstance(a, str) and isinstance(b, str):
        return str(a) == str(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
    return a == b


def same(want, got):
    """Same shape, identical leaves (constants by equality)."""
    if isinstance(want, V):
        return want is got
    if type(want) is not type(got):
        return False
    if isinstance(want, (list, tuple)):
        return len(want) == len(got) and all(same(x, y) for x, y in zip(want, got))
    if isinstance(want, dict):
        return list(want) == list(got) and all(same(want[k], got[k]) for k in want)
    return want == got


def origins(x):
    if isinstance(x, V):
        return x.origin
    if isinstance(x, (list, tuple)):
        return [origins(y) for y in x]
    if isinstance(x, dict):
        return {k: origins(y) for k, y in x.items()}
    return x


def draw_config(ctx, stale_workers=True):
    g = ctx.gen
    cfg = {
        "max_workers": g.weighted([(1, 2), (2, 4), (3, 3), (4, 2), (8, 1), (None, 1)]),
        "scheduler": g.choice([None, "default", "random"]),
    }
    if stale_workers and g.bool(0.3):
        cfg["stale_check_max_workers"] = g.int(1, 4)
    return cfg


def hang(out):
    return out.status in ("deadlock", "steps")
