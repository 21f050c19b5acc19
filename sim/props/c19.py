"""C19: a failure is attributed to the user line that created the failing symbolic call."""
import re
import sys
import uberjob
from sim import fw, kernel, plans, regs
from uberjob.graph import Call

PROP = "C19"
QUICK = 12000
THOROUGH = 1500000
RULE = ("Generated multi-module programs (helper functions, lambdas, generator expressions, class bodies, methods, "
        "recursion, open scopes, multi-line statements; entry points with 1 to many frames below them) that build plans "
        "and registries, whose expected frames are known from the program text; then runs, dry runs and runs of copies in "
        "which user calls, gathers, unpacks, source reads, store writes, read-backs, modified-time queries (of calls, "
        "sources, items, literals), output gathers and calls added by transform_physical fail; CallError.call, its frame "
        "chain, the truncation marker and the rendered message are compared with the expectation.")
REAL = fw.REAL_BASE
STUB = fw.STUB_BASE + ["value stores (in-memory)"]
ASSUMPTIONS = ["the depth limit is 4 frames", "frames of IPython are not part of the generated programs"]

LIMIT = 4


# ------------------------------------------------------------------ programs

class Fn:
    def __init__(self, name, module):
        self.name = name
        self.module = module
        self.body = []           # (kind, line, payload)
        self.line = None


class Program:
    """Two modules of functions; `walk` tells, by construction, what each dynamic statement's frames are."""

    def __init__(self, ctx):
        g = self.g = ctx.gen
        self.paths = ["/home/user/project/flow.py", "/home/user/project/lib/steps.py"]
        self.text = [[], []]
        for m in (0, 1):
            self.emit(m, "def rec(n, f):")
            self.emit(m, "    if n:")
            self.rec_down = len(self.text[m]) + 1
            self.emit(m, "        return rec(n - 1, f)")
            self.rec_call = len(self.text[m]) + 1
            self.emit(m, "    return f()")
            self.emit(m, "class Tool:")
            self.emit(m, "    def method(self, f):")
            self.tool_call = len(self.text[m]) + 1
            self.emit(m, "        f()")
            self.emit(m, "tool = Tool()")
        self.fns = []
        n = g.int(1, 5)
        for i in range(n):
            self.make(i)
        self.emit(0, "def main():")
        self.emit(0, "    try:")
        self.main_line = len(self.text[0]) + 1
        self.emit(0, f"        f{n - 1}()")
        self.emit(0, "    except BaseException as e:")
        self.emit(0, "        B.error = e")
        self.emit(0, "    finally:")
        self.emit(0, "        B.finished()")
        self.entry = self.fns[-1]

    def emit(self, m, line):
        self.text[m].append(line)
        return len(self.text[m])

    def make(self, i):
        g = self.g
        m = g.int(0, 1)
        f = Fn(f"f{i}", m)
        for _ in range(g.int(0, 3)):
            self.emit(m, "# " + "x" * g.int(0, 3))
        self.emit(m, f"def {f.name}():")
        ind = "    "
        for _ in range(g.int(1, 4 if i else 6)):
            if i and g.bool(0.55):
                callee = g.int(0, i - 1)
                c = f"f{callee}"
                how = g.choice(["plain", "lambda", "genexpr", "class", "method", "rec", "scope", "map"])
                if how == "plain":
                    L = self.emit(m, f"{ind}{c}()")
                elif how == "lambda":
                    L = self.emit(m, f"{ind}(lambda: {c}())()")
                elif how == "genexpr":
                    L = self.emit(m, f"{ind}list({c}() for _ in (0,))")
                elif how == "class":
                    self.emit(m, f"{ind}class K{i}:")
                    L = self.emit(m, f"{ind}    {c}()")
                elif how == "method":
                    L = self.emit(m, f"{ind}tool.method({c})")
                elif how == "rec":
                    k = g.int(0, 4)
                    L = self.emit(m, f"{ind}rec({k}, {c})")
                    how = ("rec", k)
                elif how == "scope":
                    self.emit(m, f"{ind}with plan.scope('s{i}'):")
                    L = self.emit(m, f"{ind}    {c}()")
                elif how == "map":
                    L = self.emit(m, f"{ind}list(map(lambda _: {c}(), [0]))")
                    how = "lambda"
                f.body.append(("invoke", L, (how, callee, self.class_line(m, how, i, L))))
            else:
                kind = g.weighted([("call", 5), ("gather", 2), ("unpack", 1), ("lit", 1), ("source", 2), ("add", 4),
                                   ("dep", 0.7)])
                L = self.statement(m, ind, kind)
                f.body.append(("make", L, kind))
        self.fns.append(f)

    def class_line(self, m, how, i, L):
        return L - 1 if how == "class" else None

    STATEMENTS = {
        "call": ("B.put(", "plan.call(", ["B.fn()", "*B.args()", "**B.kwargs()"], "))"),
        "gather": ("B.put(", "plan.gather(", ["B.container()"], "))"),
        "unpack": ("B.put(*", "plan.unpack(", ["B.iterable()", "2"], "))"),
        "lit": ("B.put(", "plan.lit(", ["B.value()"], "))"),
        "source": ("B.put(", "registry.source(", ["plan", "B.store()"], "))"),
        "add": ("B.added(B.can() and ", "registry.add(", ["B.target()", "B.store()"], "))"),
        "dep": ("B.dep(", "plan.add_dependency(", ["*B.pair()"], "))"),
    }

    def statement(self, m, ind, kind):
        """Emits it and returns the line of the call into uberjob."""
        a, b, args, c = self.STATEMENTS[kind]
        g = self.g
        style = g.weighted([("one", 4), ("args", 1), ("all", 1)])
        if style == "one":
            return self.emit(m, f"{ind}{a}{b}{', '.join(args)}{c}")
        if style == "args":
            L = self.emit(m, f"{ind}{a}{b}")
        else:
            self.emit(m, f"{ind}{a}")
            L = self.emit(m, f"{ind}    {b}")
        for x in args:
            self.emit(m, f"{ind}        {x},")
        self.emit(m, f"{ind}    {c}")
        return L

    def walk(self, base):
        """Yields (kind, frames innermost first) for every dynamic statement."""
        def frames(f, stack):
            path = self.paths[f.module]
            for kind, L, x in f.body:
                me = (f.name, path, L)
                if kind == "make":
                    yield x, (me,) + stack
                    continue
                how, callee, cl = x
                c = self.fns[callee]
                if how in ("plain", "scope"):
                    s = (me,) + stack
                elif how == "lambda":
                    s = (("<lambda>", path, L), me) + stack
                elif how == "genexpr":
                    s = (("<genexpr>", path, L), me) + stack
                elif how == "class":
                    s = ((f"K{f.name[1:]}", path, L), (f.name, path, cl)) + stack
                elif how == "method":
                    s = (("method", path, self.tool_call), me) + stack
                else:
                    s = (("rec", path, self.rec_call),) + (("rec", path, self.rec_down),) * how[1] + (me,) + stack
                yield from frames(c, s)
        yield from frames(self.entry, base)


# ------------------------------------------------------------------ building

class Entry:
    __slots__ = ("id", "kind", "sym", "frames", "sid", "reg_frames", "value", "may_fail", "source")


class Store(uberjob.ValueStore):
    def __init__(self, b, sid):
        self.b = b
        self.sid = sid

    def read(self):
        return self.b.op("read", self.sid, lambda: self.b.stored.get(self.sid, f"v{self.sid}"))

    def write(self, value):
        def effect():
            self.b.stored[self.sid] = value
            self.b.times[self.sid] = self.b.tick()
        return self.b.op("write", self.sid, effect)

    def get_modified_time(self):
        return self.b.op("mt", self.sid, lambda: self.b.mtime(self.sid))


class Build:
    def __init__(self, ctx, plan, registry):
        self.ctx = ctx
        self.g = ctx.gen
        self.plan = plan
        self.registry = registry
        self.entries = []
        self.owner = {}          # id(node) -> index of the statement that created it
        self.keep = []
        self.made = []           # one per dynamic statement: (list of entries, may_fail)
        self.stores = []
        self.where = {}          # sid -> (entry, index of the statement that registered it)
        self.fn_of = {}
        self.error = None
        self.lock = None
        self.stored = {}
        self.times = {}
        self.now = 0
        self.scripts = {}
        self.fails = []
        self.attempts = {}
        self.spec_may_fail = False
        self.pending = None

    def finished(self):
        self.lock.release()

    # called by the programs
    def fn(self):
        b = self
        key = len(self.fn_of)
        kind = self.g.weighted([("str", 5), ("list", 2), ("pair", 2), ("triple", 0.5)])

        def user_function(*args, **kwargs):
            return b.op("call", key, lambda: {"str": f"r{key}", "list": [key], "pair": (key, "b"),
                                              "triple": (1, 2, 3)}[kind])
        self.fn_of[key] = user_function
        self.pending = (key, kind)
        return user_function

    def node(self):
        e = self.g.choice(self.entries)
        return e

    def spec(self, depth=0, force=False):
        g = self.g
        if not self.entries or (g.bool(0.2) and not force):
            return g.int(0, 9)
        if depth < 2 and (force or g.bool(0.35)):
            k = g.choice(["list", "tuple", "dict", "set", "key"])
            if k in ("set", "key"):
                e = self.node()
                if e.value not in ("str",):
                    self.spec_may_fail = True
                return {e.sym} if k == "set" else {e.sym: self.spec(depth + 1)}
            items = [self.spec(depth + 1) for _ in range(g.int(1, 2))]
            return {"list": list, "tuple": tuple, "dict": lambda x: dict(enumerate(x))}[k](items)
        return self.node().sym

    def args(self):
        return [self.spec() for _ in range(self.g.small(0, 3))]

    def kwargs(self):
        return {f"k{i}": self.spec() for i in range(self.g.small(0, 2))}

    def container(self):
        self.pending = (None, "other")
        return self.spec(force=True)

    def iterable(self):
        self.pending = (None, "other")
        e = self.node() if self.entries else None
        if e is None:
            return (1, 2)
        self.spec_may_fail = True
        return e.sym if self.g.bool(0.7) else self.spec(force=True)

    def value(self):
        self.pending = (None, self.g.choice(["str", "pair"]))
        return "lit" if self.pending[1] == "str" else ("lit", 2)

    def store(self):
        s = Store(self, len(self.stores))
        self.stores.append(s)
        self.now_store = s
        self.times[s.sid] = None
        return s

    def can(self):
        return any(e.sid is None for e in self.entries)

    def target(self):
        free = [e for e in self.entries if e.sid is None and e.sym not in self.registry]
        self.goal = self.g.choice(free) if self.g.bool(0.4) else free[-1]
        return self.goal.sym

    def pair(self):
        if len(self.entries) < 2:
            a = self.plan.call(len, "x")
            return (a, a) if False else (a, self.plan.call(len, "x"))
        b = self.g.int(1, len(self.entries) - 1)
        a = self.g.int(0, b - 1)
        x, y = self.entries[a].sym, self.entries[b].sym
        if x is y or reaches(self.plan.graph, y, x):
            return (self.plan.call(len, "x"), y)
        return (x, y)

    def put(self, *syms):
        out = []
        for s in syms:
            e = Entry()
            e.id = len(self.entries)
            e.sym = s
            e.sid = e.reg_frames = None
            old = [o for o in self.entries if o.sym is s]
            e.value = self.pending[1] if self.pending else "other"
            if len(syms) > 1:
                e.value = "other"
            e.source = False
            if old:
                continue         # gather of a node is that node
            if s in self.registry:
                e.sid = self.now_store.sid
                e.source = True
                e.value = "str"
                self.where[e.sid] = (e, len(self.made))
            self.entries.append(e)
            out.append(e)
        self.pending = None
        self.statement()

    def added(self, _):
        if self.goal is not None:
            e = self.goal
            e.sid = self.now_store.sid
            self.where[e.sid] = (e, len(self.made))
            self.goal = None
        self.statement()

    goal = None

    def dep(self, _):
        self.statement()

    def statement(self):
        """The end of one dynamic statement: whatever is new in the graph was created by it."""
        i = len(self.made)
        for u in self.plan.graph.nodes():
            if id(u) not in self.owner:
                self.owner[id(u)] = i
                self.keep.append(u)
        self.made.append(self.spec_may_fail)
        self.spec_may_fail = False

    # operations
    def tick(self):
        self.now += 1
        return self.now

    def mtime(self, sid):
        t = self.times[sid]
        return None if t is None else regs.EPOCH + regs.dt.timedelta(seconds=t)

    def op(self, kind, ident, effect):
        sim = kernel.S.sim
        if sim.killing:
            raise kernel.SimKilled
        sim.ev(kind, ident)
        n = self.attempts[kind, ident] = self.attempts.get((kind, ident), 0) + 1
        sim.point()
        script = self.scripts.get((kind, ident), ())
        if n <= len(script):
            e = plans.make_exc(script[n - 1], ident)
            self.fails.append((kind, ident, e))
            raise e
        return effect()


def reaches(graph, a, b):
    seen, todo = set(), [a]
    while todo:
        u = todo.pop()
        if u is b:
            return True
        if u not in seen:
            seen.add(u)
            todo.extend(graph.successors(u))
    return False


def chain():
    """The caller's frames, innermost first."""
    f = sys._getframe(1)
    out = []
    while f is not None:
        out.append((f.f_code.co_name, f.f_code.co_filename, f.f_lineno))
        f = f.f_back
    return tuple(out)


def expected(frames):
    return frames[:LIMIT], len(frames) > LIMIT


def actual(sf):
    """(frames, truncated) of a stack frame chain."""
    out = []
    for _ in range(100):
        if sf is None:
            return tuple(out), False
        if not hasattr(sf, "line"):
            return tuple(out), True
        out.append((sf.name, sf.path, sf.line))
        sf = sf.outer
    return tuple(out), False


def case(ctx):
    g = ctx.gen
    prog = Program(ctx)
    plan, registry = uberjob.Plan(), uberjob.Registry()
    b = Build(ctx, plan, registry)
    shared = {"B": b, "plan": plan, "registry": registry}
    mods = [dict(shared, __name__="flow"), dict(shared, __name__="steps")]
    for m in (0, 1):
        exec(compile("\n".join(prog.text[m]) + "\n", prog.paths[m], "exec"), mods[m])
    for f in prog.fns:
        for m in (0, 1):
            mods[m][f.name] = mods[f.module][f.name]
    times = g.int(1, 2)
    frames = []
    for _ in range(times):
        if len(frames) > 40:
            break
        if g.bool(0.5):
            # a thread whose outermost frame is the program's main
            b.lock = kernel._real_allocate_lock()
            b.lock.acquire()
            kernel._real_start_new_thread(mods[0]["main"], ())
            b.lock.acquire()
            base = (("main", prog.paths[0], prog.main_line),)
            ctx.count("shallow_entries")
        else:
            base, _ = chain(), mods[prog.entry.module][prog.entry.name]()
        if b.error is not None:
            raise b.error
        frames += [f for _, f in prog.walk(base)]
    if len(frames) != len(b.made):
        raise fw.HarnessError(f"{len(frames)} statements expected, {len(b.made)} executed")
    for m in (0, 1):
        ctx.note(prog.paths[m], "\n" + "\n".join(f"{i + 1:3} {l}" for i, l in enumerate(prog.text[m])))
    for i in range(g.int(1, 3)):
        if g.bool(0.2):
            plan, registry = plan.copy(), registry.copy()
            ctx.count("runs_of_copies")
        one_run(ctx, b, plan, registry, frames)


def one_run(ctx, b, plan, registry, frames):
    g = ctx.gen
    phase = g.choice(["call", "call", "store", "store", "mt", "structure", "output", "transform", "mix"])
    b.scripts, b.attempts, b.fails = {}, {}, []
    retry = g.choice([None, None, 2])
    n = retry or 1
    kinds = [k for k in plans.ONLY_EXCEPTION if k != "shared"]  # (failures are told apart by their exceptions)

    def script(*key):
        b.scripts[key] = tuple(g.choice(kinds) for _ in range(n))
    p = g.choice([0.2, 0.6])
    if phase in ("call", "mix"):
        for k in b.fn_of:
            if g.bool(p):
                script("call", k)
    if phase in ("store", "mix"):
        for s in b.stores:
            if g.bool(p):
                script(g.choice(["read", "write"]), s.sid)
    if phase == "mt" or phase == "mix" and g.bool(0.3):
        for s in b.stores:
            if g.bool(p):
                script("mt", s.sid)
    for s in b.stores:
        # sometimes there is something stored already
        if s.sid in b.where:
            e = b.where[s.sid][0]
            b.times[s.sid] = None if g.bool(0.4 if not e.source else 0.05) else b.tick()
    dead = {s for s in b.times if b.times[s] is None and s in b.where and b.where[s][0].source}
    depth = g.small(0, 4)
    kw = regs.draw_config(ctx)
    kw["max_errors"] = g.choice([0, 0, 1, None])
    kw["retry"] = retry
    kw["dry_run"] = g.bool(0.1)
    obs = []
    kw["progress"] = plans.recording_progress(obs)
    kw["registry"] = registry
    out_fail = False
    syms = [e.sym for e in b.entries]
    if phase == "output" and syms:
        k = g.choice(["set", "key", "list"])
        x = g.choice(syms)
        kw["output"] = {"set": [{x}], "key": {x: 1}, "list": [[x], g.choice(syms)]}[k]
        out_fail = k != "list"
    elif syms and g.bool(0.8):
        kw["output"] = g.choice([syms, g.choice(syms), syms[:1]])
    extra = []

    def t(phys, node):
        def grown():
            raise ValueError("grown")

        def sub():
            return (extra.append(chain()), phys.call(grown))[1]
        u = sub() if g.bool(0.5) else (lambda: sub())()
        for v in list(phys.graph.nodes()):
            if v is not u and g.bool(0.5):
                phys.add_dependency(u, v)
        return phys, node
    if phase == "transform":
        kw["transform_physical"] = t
    hold = []

    def deep(k):
        if k:
            return deep(k - 1)
        return (hold.append(chain()), uberjob.run(plan, **kw))[1]
    ctx.note("run", phase, "scripts", b.scripts, "dry", kw["dry_run"], "retry", retry, "max_errors", kw["max_errors"])
    sim, out = ctx.run(lambda: deep(depth))
    if regs.hang(out):
        ctx.count("hang_left_to_C07")
        return
    ctx.fault("op_raises", len(b.fails))
    if out.status == "returned":
        ctx.count("runs_without_failure")
        return
    err = out.exc
    if not isinstance(err, uberjob.CallError):
        ctx.fail("type", f"the run raised {err!r} instead of a CallError")
    judge(ctx, b, registry, frames, err, err.__cause__, hold[0], extra, out_fail, "the run's error")
    for o in obs:
        for ev in o.events:
            if ev[0] == "failed" and isinstance(ev[3], uberjob.CallError):
                judge(ctx, b, registry, frames, ev[3], ev[3].__cause__, hold[0], extra, out_fail,
                      "an error reported to the progress observer")


def judge(ctx, b, registry, frames, err, cause, run_frames, extra, out_fail, what):
    call = err.call
    if not isinstance(call, Call):
        ctx.fail("call", f"{what}: CallError.call is {call!r}")
    hit = [f for f in b.fails if f[2] is cause]
    desc = fname(call)
    if hit:
        kind, ident, _ = hit[0]
        if kind == "call":
            fn = b.fn_of[ident]
            own = [u for u in b.keep if isinstance(u, Call) and u.fn is fn]
            if call is not own[0]:
                ctx.fail("call", f"{what}: user call {ident} failed but CallError.call is {desc}")
            want = frames[b.owner[id(call)]]
            label = f"call {ident}"
        else:
            e, i = b.where[ident]
            if kind == "mt":
                want = frames[b.owner[id(e.sym)]]
                if isinstance(e.sym, Call) and call is not e.sym:
                    ctx.fail("call", f"{what}: the modified-time query of {fname(e.sym)} failed but CallError.call is "
                                     f"{desc}")
            else:
                want = frames[i]
                if id(call) in b.owner or fname(call) != kind:
                    ctx.fail("call", f"{what}: the {kind} of store {ident} failed but CallError.call is {desc}")
            label = f"{kind} of store {ident}" + (" (source)" if e.source else "")
            ctx.count(f"attributed:{kind}{':source' if e.source else ''}" + ("" if isinstance(e.sym, Call) else ":literal"))
    elif isinstance(cause, ValueError) and cause.args == ("grown",):
        want = extra[0]
        label = "a call added by transform_physical"
        if fname(call) != "grown":
            ctx.fail("call", f"{what}: {label} failed but CallError.call is {desc}")
    elif id(call) in b.owner:
        i = b.owner[id(call)]
        if call.fn in b.fn_of.values():
            ctx.fail("call", f"{what}: CallError.call is user function {desc}, which did not raise {cause!r}")
        if not b.made[i]:
            ctx.fail("call", f"{what}: CallError.call is {desc}, whose statement cannot fail ({cause!r})")
        want = frames[i]
        label = f"{desc} ({type(cause).__name__})"
    else:
        if not out_fail:
            ctx.fail("call", f"{what}: CallError.call is {desc}, which no statement created ({cause!r})")
        want = run_frames
        label = f"the gather of the run's output ({desc})"
        ctx.count("attributed:output")
    if not hit:
        ctx.count("attributed:structure")
    got, cut = actual(call.stack_frame)
    wf, wcut = expected(want)
    ctx.distinct("attributions", (label.split(" of ")[0], min(len(want), 6), wf[0][2]))
    ctx.count(f"stack_depth:{min(len(want), 6)}")
    if got[:1] != wf[:1]:
        ctx.fail("line", f"{what}: {label} was created at {show(wf[0])}, but its symbolic traceback starts at "
                         f"{show(got[0]) if got else None}")
    if got != wf:
        ctx.fail("frames", f"{what}: the symbolic traceback of {label} is {[show(f) for f in got]}, expected "
                           f"{[show(f) for f in wf]}")
    if cut != wcut:
        ctx.fail("truncation", f"{what}: the symbolic traceback of {label} is {'' if cut else 'not '}marked truncated; the "
                               f"stack had {len(want)} frames")
    text = str(err)
    lines = [l for l in text.split("\n") if "File " in l or "truncated" in l]
    k = 0
    if wcut:
        if not lines or "truncated" not in lines[0]:
            ctx.fail("message", f"{what}: the message does not start with the truncation marker: {text!r}")
        k = 1
    rest = lines[k:]
    ok = len(rest) == len(wf) and all(
        f[1] in l and re.search(rf"\b{f[2]}\b", l) and f[0] in l for f, l in zip(reversed(wf), rest))
    if not ok:
        ctx.fail("message", f"{what}: the message does not list the frames of {label} outermost first: {text!r}")


def fname(call):
    fn = getattr(call, "fn", None)
    return getattr(fn, "__name__", repr(fn)) if fn is not None else repr(call)


def show(f):
    return f"{f[1].rsplit('/', 1)[-1]}:{f[2]} in {f[0]}"
