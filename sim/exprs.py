"""Random expression graphs and an independent direct evaluator (C02).

Expressions are tagged tuples kept by the harness:
  ("node", i)            the symbolic value of node i
  ("obj", o)             an object passed as it is (it contains no node that uberjob may replace)
  ("list"|"tuple"|"set", [e...], original)  /  ("dict", [(k, v)...], original)
`original` is the container handed to uberjob; it contains a node somewhere, otherwise it is an "obj".
"""
import collections
import functools
import itertools
import operator
import sys
import types

import uberjob
from sim import kernel
from uberjob.graph import Node


class Val:
    """A call result; identity is what counts."""
    __slots__ = ("nid", "__weakref__")

    def __init__(self, nid):
        self.nid = nid

    def __repr__(self):
        return f"Val({self.nid})"


class Hostile:
    """A value that objects to being compared, hashed, tested or measured."""

    def __init__(self, nid):
        self.nid = nid

    def _no(self, *a):
        raise RuntimeError("hostile value was inspected")
    __eq__ = __ne__ = __lt__ = __gt__ = __bool__ = __len__ = __hash__ = __iter__ = __contains__ = __add__ = _no
    __int__ = __float__ = __index__ = __copy__ = __deepcopy__ = __reduce__ = __getstate__ = __call__ = _no

    def __repr__(self):
        return f"Hostile({self.nid})"


class EqVal:
    """Equal (and equally hashed) to every other EqVal with the same key."""
    __slots__ = ("key", "nid")

    def __init__(self, key, nid):
        self.key = key
        self.nid = nid

    def __eq__(self, other):
        return isinstance(other, EqVal) and other.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return f"EqVal({self.key},{self.nid})"


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MyDict(dict):
    pass


class MySet(set):
    pass


Pair = collections.namedtuple("Pair", "a b")


class Falsy:
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class CallableObj:
    """Callable, falsy and unhashable."""

    def __init__(self, f):
        self.f = f

    def __eq__(self, other):
        return True
    __hash__ = None

    def __len__(self):
        return 0

    def __call__(self, /, *args, **kwargs):
        return self.f(args, kwargs)


class Method:
    def __init__(self, f):
        self.f = f

    def method(self, /, *args, **kwargs):
        return self.f(args, kwargs)

    @classmethod
    def make(cls, f):
        return functools.partial(cls._static, f)

    @staticmethod
    def _static(f, /, *args, **kwargs):
        return f(args, kwargs)


def template_any(rec):
    def fn(*args, **kwargs):
        return rec(args, kwargs)
    return fn


def template_posonly(rec):
    def fn(a=None, /, *rest, **kw):
        return rec((a, *rest), kw)
    return fn


def template_self(rec):
    def fn(self=None, fn="default", *args, stack_frame=None, plan=None, **kw):
        return rec((self, fn, *args), {"stack_frame": stack_frame, "plan": plan, **kw})
    return fn


def template_lambda(rec):
    return lambda *a, **k: rec(a, k)


def template_method(rec):
    return Method(rec).method


def template_partial(rec):
    return functools.partial(template_any(rec), "pre", zz="post")


def template_obj(rec):
    return CallableObj(rec)


def template_partial2(rec):
    return Method.make(rec)


TEMPLATES = [template_any, template_posonly, template_self, template_lambda, template_method, template_partial, template_obj,
             template_partial2]
NAMES = ["a", "b", "fn", "self", "stack_frame", "args", "kwargs", "plan", "value", "x1", "output", "f", "func", "call",
         "index", "name", "retry", "cls", "é", "_"]


@functools.cache
def parameter_names():
    """What uberjob itself calls its parameters; a caller's keyword argument may be called the same."""
    names = set()
    for name, module in sorted(sys.modules.items()):
        if name.split(".")[0] == "uberjob":
            for o in [*vars(module).values(), *(f for c in vars(module).values() if isinstance(c, type) for f in vars(c).values())]:
                if type(o) is types.FunctionType and o.__module__.split(".")[0] == "uberjob":
                    codes = [o.__code__]
                    for c in codes:
                        names.update(c.co_varnames[:c.co_argcount + c.co_kwonlyargcount])
                        codes += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return sorted(n for n in names if n.isidentifier())


CONTAINERS = {"list": list, "tuple": tuple, "set": set, "dict": dict}


class XN:
    __slots__ = ("id", "kind", "sym", "fn", "args", "kwargs", "expr", "length", "index", "src", "made", "hashable", "value",
                 "steps", "gen", "failing", "deps")

    def __init__(self, id, kind):
        self.id = id
        self.kind = kind          # call builtin lit gather unpack item
        self.args = ()
        self.kwargs = {}
        self.hashable = False
        self.steps = ()
        self.deps = set()
        self.gen = False
        self.failing = None
        self.made = None
        self.value = None         # a generator that an unpack consumes


class Failure(Exception):
    """Direct evaluation of this node raises `exc`."""

    def __init__(self, nid, exc_type):
        self.nid = nid
        self.exc_type = exc_type


class ExprWorld:
    def __init__(self, ctx, n_max=12, deep=False):
        self.ctx = ctx
        g = self.g = ctx.gen
        self.plan = uberjob.Plan()
        self.nodes = []
        self.keep = []
        self.live = []            # lists and dicts handed over before, which the caller may change and hand over again
        self.deep = deep
        self.p_plain = g.choice([0.1, 0.35])
        self.seen = collections.defaultdict(list)
        self.received = []
        n = g.small(1, n_max)
        kinds = [("call", 6), ("builtin", 1.5), ("lit", 1), ("gather", 2), ("unpack", 2)]
        while len(self.nodes) < n:
            self.mutate()
            getattr(self, "new_" + g.weighted(kinds))()
        if g.bool(0.001):
            self.tower(g.choice([300, 1050, 1300]))
        if g.bool(0.4):
            for _ in range(g.int(1, 3)):
                if len(self.nodes) > 1:
                    b = g.int(1, len(self.nodes) - 1)
                    a = g.int(0, b - 1)
                    alias = self.nodes[b].kind == "gather" and self.nodes[b].expr[0] == "node"
                    alias = alias or "unpack" in (self.nodes[a].kind, self.nodes[b].kind)
                    if self.nodes[a].sym is not self.nodes[b].sym and not alias:
                        self.plan.add_dependency(self.nodes[a].sym, self.nodes[b].sym)
                        self.nodes[b].deps.add(a)

    # -- values without nodes that uberjob may touch
    def obj(self, hashable=False):
        g = self.g
        kinds = ["int", "str", "none", "tuple", "frozen", "eq", "val", "true", "empty_t", "pair"]
        if not hashable:
            kinds += ["list", "dict", "set", "nested", "mylist", "mydict", "mytuple", "myset", "odict", "ddict", "deque",
                      "hostile", "falsy", "empty_l", "empty_d", "frozen_node", "lit_type", "gen", "bytearray", "plan", "deepplain"]
        k = g.choice(kinds)
        n = self.g.choice(self.nodes).sym if self.nodes else None
        self._u = u = getattr(self, "_u", 0) + 1
        o = {
            "int": lambda: g.int(0, 3), "str": lambda: f"s{u}", "none": lambda: None, "true": lambda: True,
            "tuple": lambda: (1, f"t{u}", (2, Val(-u))), "frozen": lambda: frozenset({f"f{u}"}),
            "eq": lambda: EqVal(g.int(0, 1), -u), "val": lambda: Val(-u), "empty_t": lambda: (),
            "pair": lambda: Pair(1, f"p{u}"),
            "list": lambda: [1, f"l{u}", [2]], "dict": lambda: {"k": [u], 2: {}}, "set": lambda: {u, "x"},
            "nested": lambda: [{"a": ({1, 2}, [Val(-u)])}, (), {}],
            "mylist": lambda: MyList([n, u]), "mydict": lambda: MyDict(a=n), "mytuple": lambda: MyTuple((n, 1)),
            "myset": lambda: MySet({u} | ({n} if n is not None else set())),
            "odict": lambda: collections.OrderedDict(b=n, a=1),
            "ddict": lambda: collections.defaultdict(list, a=[n]), "deque": lambda: collections.deque([n, 2]),
            "hostile": lambda: Hostile(-u), "falsy": lambda: Falsy(), "empty_l": lambda: [], "empty_d": lambda: {},
            "frozen_node": lambda: frozenset({n, 1}), "lit_type": lambda: Node, "gen": lambda: iter([n, 1]),
            "bytearray": lambda: bytearray(b"x"), "plan": lambda: self.plan,
            "deepplain": lambda: deep_plain(40, u),
        }[k]()
        self.keep.append(o)
        return ("obj", o)

    # -- expressions
    def expr(self, depth=0, hashable=False):
        g = self.g
        ns = [n for n in self.nodes if n.kind != "unpack" and (n.hashable or not hashable)]
        if hashable and g.bool(0.02):
            ns = [n for n in self.nodes if n.kind != "unpack"]
        if not ns or g.bool(self.p_plain):
            return self.obj(hashable)
        if self.live and not hashable and g.bool(0.08):
            kind, items, o = g.choice(self.live)
            e = (kind, list(items), o)
            return e if self.has_node(e) else ("obj", o)
        if depth < (12 if self.deep else 4) and g.bool(0.75 if self.deep and depth else 0.35):
            kind = g.choice(["tuple"] if hashable else ["list", "tuple", "dict", "set"])
            k = g.small(1, 3) if g.bool(0.97) else g.int(4, 40)
            if kind == "dict":
                return self.mk_dict([(self.expr(depth + 1, True), self.expr(depth + 1)) for _ in range(k)])
            return self.mk(kind, [self.expr(depth + 1, hashable or kind == "set") for _ in range(k)])
        return ("node", g.choice(ns).id)

    def mutate(self):
        """The caller changes a container that it has passed before."""
        g = self.g
        if not self.live or not g.bool(0.3):
            return
        kind, items, o = g.choice(self.live)
        ns = [n for n in self.nodes if n.kind != "unpack"]
        x = ("node", g.choice(ns).id) if ns and g.bool(0.7) else ("obj", g.int(0, 9))
        if kind == "list":
            how = g.choice(["set", "append", "pop", "insert"])
            if how == "set" and items:
                i = g.int(0, len(items) - 1)
                items[i], o[i] = x, self.sym(x)
            elif how == "pop" and items:
                items.pop()
                o.pop()
            elif how == "insert":
                items.insert(0, x)
                o.insert(0, self.sym(x))
            else:
                items.append(x)
                o.append(self.sym(x))
        elif items and g.bool(0.6):
            i = g.int(0, len(items) - 1)
            items[i] = (items[i][0], x)
            o[self.sym(items[i][0])] = self.sym(x)
        else:
            key = ("obj", f"m{len(items)}")
            if key[1] not in o:
                items.append((key, x))
                o[key[1]] = self.sym(x)
        self.ctx.count("containers_changed_by_caller")

    def flat(self, e):
        return e[0] == "node" or e[0] == "obj" and isinstance(e[1], (int, str, type(None), Val, EqVal))

    def has_node(self, e):
        k = e[0]
        if k == "node":
            return True
        if k == "obj":
            return False
        if k == "dict":
            return any(self.has_node(a) or self.has_node(b) for a, b in e[1])
        return any(self.has_node(x) for x in e[1])

    def sym(self, e):
        if e[0] == "node":
            return self.nodes[e[1]].sym
        if e[0] == "obj":
            return e[1]
        return e[2]

    def mk(self, kind, items):
        o = CONTAINERS[kind](self.sym(x) for x in items)
        self.keep.append(o)
        if kind == "set":
            # equal symbolic members collapse: keep one expression per member of the real set
            out = []
            for m in o:
                for x in items:
                    if self.sym(x) is m:
                        out.append(x)
                        break
            items = out
        e = (kind, items, o)
        if kind == "list" and len(self.live) < 4 and all(self.flat(x) for x in items):
            self.live.append((kind, list(items), o))
        return e if self.has_node(e) else ("obj", o)

    def mk_dict(self, pairs):
        o = {}
        for a, b in pairs:
            o[self.sym(a)] = self.sym(b)
        self.keep.append(o)
        out = []
        for key, value in o.items():
            a = next(x for x, _ in pairs if self.sym(x) is key)
            b = next(x for _, x in reversed(pairs) if self.sym(x) is value)
            out.append((a, b))
        e = ("dict", out, o)
        if len(self.live) < 4 and all(self.flat(a) and self.flat(b) for a, b in out):
            self.live.append(("dict", list(out), o))
        return e if self.has_node(e) else ("obj", o)

    def refs(self, e):
        k = e[0]
        if k == "node":
            return {e[1]}
        if k == "obj":
            return set()
        if k == "dict":
            return set().union(*(self.refs(a) | self.refs(b) for a, b in e[1]), set())
        return set().union(*(self.refs(x) for x in e[1]), set())

    # -- nodes
    def add(self, kind):
        n = XN(len(self.nodes), kind)
        self.nodes.append(n)
        return n

    def scope(self):
        g = self.g
        return self.plan.scope(*g.choice([(), (), ("s",), ("t", 1)]))

    def new_call(self):
        g = self.g
        nid = len(self.nodes)
        t = g.choice(TEMPLATES)
        args = [self.expr() for _ in range(g.small(0, 4) if g.bool(0.97) else g.int(10, 120))]
        if args and g.bool(0.15):
            args.append(args[0])
        names = g.sample(NAMES, g.small(0, 5)) if g.bool(0.6) else []
        if g.bool(0.1):
            names = [*dict.fromkeys([*names, *g.sample(parameter_names(), 2)])]
        if t is template_self:
            names = [x for x in names if not (x == "self" and args) and not (x == "fn" and len(args) > 1)]
        if t is template_posonly and not args:
            names = [x for x in names if x != "a"]       # (inspect.Signature.bind of CPython 3.12 rejects this legal call)
        kwargs = {x: self.expr() for x in names}
        fn = t(lambda a, k: self.record(nid, a, k))
        a = [self.sym(e) for e in args]
        k = {x: self.sym(e) for x, e in kwargs.items()}
        with self.scope():
            sym = self.plan.call(fn, *a, **k)
        n = self.add("call")
        n.sym, n.fn, n.args, n.kwargs = sym, t, args, kwargs
        n.steps = tuple(g.weighted([(0, 4), (-1, 2), (2, 1)]) for _ in range(g.int(0, 2)))
        kind = g.weighted([("val", 6), ("eq", 2), ("list", 1), ("tuple", 1), ("none", 0.7), ("hostile", 1), ("dict", 0.7),
                           ("str", 1), ("gen", 1), ("inf", 0.3), ("int", 1), ("falsy", 0.5), ("node", 0.3),
                           ("callable", 0.5), ("type", 0.3), ("raise", 0.25), ("exc", 0.4), ("self", 0.3)])
        n.made = kind
        n.hashable = kind in ("val", "eq", "none", "str", "int", "node", "type", "exc")
        n.gen = kind in ("gen", "inf")
        if kind == "raise":
            n.failing = ValueError

    def tower(self, k):
        """k calls, each a function of the one before."""
        last = None
        for _ in range(k):
            nid = len(self.nodes)
            args = [] if last is None else [("node", last)]
            sym = self.plan.call(template_any(lambda a, kw, nid=nid: self.record(nid, a, kw)), *(self.sym(e) for e in args))
            n = self.add("call")
            n.sym, n.fn, n.args, n.made, n.hashable = sym, template_any, args, "val", True
            last = nid

    def make_value(self, n):
        k = n.made
        i = n.id
        return {
            "val": lambda: Val(i), "eq": lambda: EqVal(i % 2, i), "list": lambda: [Val(i), i, None],
            "tuple": lambda: (Val(i), [i]), "none": lambda: None, "hostile": lambda: Hostile(i),
            "dict": lambda: {"x": Val(i), "y": 1}, "str": lambda: f"str{i}", "int": lambda: i % 4,
            "gen": lambda: (Val((i, j)) for j in range(i % 4)), "inf": lambda: itertools.count(),
            "falsy": lambda: Falsy(), "node": lambda: self.nodes[0].sym, "callable": lambda: (lambda: i),
            "type": lambda: Val, "raise": lambda: None, "exc": lambda: ValueError(i), "self": lambda: [self.plan, n.sym],
        }[k]()

    def new_builtin(self):
        """Real library callables, evaluated by both sides; compared by equality."""
        g = self.g
        ints = [n for n in self.nodes if n.kind == "call" and n.made == "int"]
        strs = [n for n in self.nodes if n.kind == "call" and n.made == "str"]

        def i():
            return ("node", g.choice(ints).id) if ints and g.bool(0.7) else ("obj", g.int(0, 5))

        def s():
            return ("node", g.choice(strs).id) if strs and g.bool(0.7) else ("obj", f"b{g.int(0, 5)}")
        k = g.choice(["add", "dict", "max", "upper", "len", "int", "sub", "print_like", "divmod", "replace", "sorted"])
        args, kwargs = [], {}
        if k == "add":
            fn, args = operator.add, [i(), i()]
        elif k == "sub":
            fn, args = operator.sub, [i(), i()]
        elif k == "dict":
            fn = dict
            kwargs = {x: i() for x in g.sample(NAMES, g.int(1, 4))}
        elif k == "max":
            fn, args = max, [i(), i(), i()]
            if g.bool():
                kwargs = {"key": ("obj", operator.neg)}
        elif k == "upper":
            fn, args = str.upper, [s()]
        elif k == "len":
            fn, args = len, [s()]
        elif k == "int":
            fn, args = int, [i()]
        elif k == "divmod":
            fn, args = divmod, [i(), ("obj", 3)]
        elif k == "replace":
            fn, args = str.replace, [s(), ("obj", "b"), s()]
        elif k == "sorted":
            fn, args, kwargs = sorted, [self.mk("list", [i(), i()])], {"reverse": ("obj", True)}
        else:
            fn, args = "{}-{}".format, [i(), s()]
        a = [self.sym(e) for e in args]
        kw = {x: self.sym(e) for x, e in kwargs.items()}
        with self.scope():
            sym = self.plan.call(fn, *a, **kw)
        n = self.add("builtin")
        n.sym, n.fn, n.args, n.kwargs = sym, fn, args, kwargs
        n.hashable = k not in ("dict", "sorted")

    def new_lit(self):
        g = self.g
        if self.nodes and g.bool(0.3):
            o = [self.nodes[-1].sym, 1]       # a literal is opaque even if it contains nodes
            self.keep.append(o)
        else:
            o = self.obj()[1]
        if isinstance(o, Node):
            return
        sym = self.plan.lit(o)
        n = self.add("lit")
        n.sym, n.expr = sym, o
        n.hashable = isinstance(o, (int, str, type(None), Val, EqVal))
        n.gen = hasattr(o, "__next__") if not isinstance(o, (Hostile, type)) else False

    def new_gather(self):
        e = self.expr()
        sym = self.plan.gather(self.sym(e))
        n = self.add("gather")
        n.sym, n.expr = sym, e
        if e[0] == "node" and sym is not self.nodes[e[1]].sym:
            self.ctx.fail("gather-node", "gather of a node returned another node")
        n.hashable = e[0] == "tuple" and self.tuple_hashable(e)

    def tuple_hashable(self, e):
        if e[0] == "node":
            return self.nodes[e[1]].hashable
        if e[0] == "tuple":
            return all(self.tuple_hashable(x) for x in e[1])
        return e[0] == "obj" and isinstance(e[1], (int, str, type(None), Val, EqVal))

    def new_unpack(self):
        g = self.g
        cands = [n for n in self.nodes if n.kind == "call" and n.made in ("list", "tuple", "dict", "str", "gen", "inf", "val",
                                                                          "int", "none")
                 and not (n.gen and n.value)]
        if cands and g.bool(0.7):
            src = g.choice(cands)
            if src.gen:
                src.value = True
            e = ("node", src.id)
            good = {"list": 3, "tuple": 2, "dict": 2, "str": 3 + len(str(src.id)), "gen": src.id % 4}.get(src.made, 1)
        else:
            k = g.small(0, 4) if g.bool(0.95) else g.choice([9, 12, 33, 70, 120])
            e = self.mk(g.choice(["list", "tuple"]), [self.expr(3) for _ in range(k)])
            good = k
        length = good if g.bool(0.9) else g.int(0, 5)
        if good > 5 and g.bool(0.35):
            length = good + g.choice([-1, 1, -5])
        elif e[0] == "node" and self.nodes[e[1]].made in ("inf", "gen") and g.bool(0.05):
            length = g.choice([40, 130])
        items = self.plan.unpack(self.sym(e), length)
        n = self.add("unpack")
        n.sym, n.expr, n.length = None, e, length
        if type(items) is not tuple or len(items) != length:
            self.ctx.fail("unpack-shape", f"unpack(..., {length}) returned {items!r}")
        if not items:
            self.nodes.pop()
            return
        hashable = e[0] == "node" and self.nodes[e[1]].made in ("str", "dict", "gen")
        n.sym = items[0]         # (the unpack node itself is not a user-visible value and is never referred to)
        for j, it in enumerate(items):
            m = self.add("item")
            m.sym, m.src, m.index = it, n.id, j
            m.hashable = hashable

    # -- execution
    def record(self, nid, args, kwargs):
        n = self.nodes[nid]
        sim = kernel.S.sim
        if self.oracle is not None:
            self.oracle.append((args, dict(kwargs)))
            return None
        if sim is None:
            raise RuntimeError("call outside a run")
        sim.ev("call", nid)
        self.received.append((nid, args, dict(kwargs)))
        for s in n.steps:
            if s < 0:
                sim.pause()
            elif s:
                import time
                time.sleep(s / 1000)
            else:
                sim.point()
        if n.failing:
            raise n.failing(nid)
        if nid in self.returned:
            self.problem = f"call {nid} executed twice"
        r = self.values[nid]
        self.returned.add(nid)
        return r

    oracle = None

    def begin(self):
        """Fresh result objects for a run."""
        self.values = {n.id: self.make_value(n) for n in self.nodes if n.kind == "call"}
        self.twin = {n.id: self.make_value(n) for n in self.nodes if n.kind == "call" and n.gen}
        self.returned = set()
        self.received = []
        self.problem = None

    # -- direct evaluation
    def evaluator(self):
        return Evaluator(self)

    def needed(self, e):
        seen = set()
        todo = list(self.refs(e))
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            n = self.nodes[i]
            todo.extend(n.deps)
            for x in (*n.args, *n.kwargs.values()):
                todo.extend(self.refs(x))
            if n.kind in ("gather", "unpack"):
                todo.extend(self.refs(n.expr))
            if n.kind == "item":
                todo.append(n.src)
        return seen

    def describe(self):
        out = []
        for n in self.nodes:
            d = f"n{n.id}={n.kind}"
            if n.kind in ("call", "builtin"):
                a = [fmt(x) for x in n.args] + [f"{k}={fmt(e)}" for k, e in n.kwargs.items()]
                d += f"({', '.join(a)}) via {getattr(n.fn, '__name__', 'format')} -> {n.made}"
            elif n.kind in ("gather", "unpack"):
                d += f" {fmt(n.expr)}" + (f" length {n.length}" if n.kind == "unpack" else "")
            elif n.kind == "item":
                d += f" n{n.src}[{n.index}]"
            elif n.kind == "lit":
                d += f" {type(n.expr).__name__}"
            if n.deps:
                d += f" after={sorted(n.deps)}"
            out.append(d)
        return "; ".join(out)[:6000]


def fmt(e):
    k = e[0]
    if k == "node":
        return f"n{e[1]}"
    if k == "obj":
        return type(e[1]).__name__
    if k == "dict":
        return "{" + ", ".join(f"{fmt(a)}: {fmt(b)}" for a, b in e[1]) + "}"
    a, b = {"list": "[]", "tuple": "()", "set": "{}"}[k]
    return a + ", ".join(fmt(x) for x in e[1]) + b


def deep_plain(k, u):
    x = [u]
    for _ in range(k):
        x = [x]
    return x


class ByValue:
    """An expected value known up to equality and type."""

    def __init__(self, v):
        self.v = v


class Built:
    """An expected container built by direct evaluation (shape by type, members recursively)."""

    def __init__(self, kind, items):
        self.kind = kind
        self.items = items


class Evaluator:
    """Recursive, memoised, single-threaded evaluation of the expression graph."""

    def __init__(self, w):
        self.w = w
        self.memo = {}

    def node(self, i):
        if i in self.memo:
            r = self.memo[i]
            if isinstance(r, Failure):
                raise r
            return r
        try:
            r = self._node(self.w.nodes[i])
        except Failure as f:
            self.memo[i] = f
            raise
        self.memo[i] = r
        return r

    def _node(self, n):
        w = self.w
        if n.kind == "lit":
            return n.expr
        if n.kind == "gather":
            return self.expr(n.expr, n.id)
        if n.kind == "call":
            for x in (*n.args, *n.kwargs.values()):
                self.expr(x, n.id)
            if n.failing:
                raise Failure(n.id, n.failing)
            return w.values[n.id]
        if n.kind == "builtin":
            a = [concrete(self.expr(x, n.id)) for x in n.args]
            k = {x: concrete(self.expr(e, n.id)) for x, e in n.kwargs.items()}
            try:
                return ByValue(n.fn(*a, **k))
            except Exception as e:
                raise Failure(n.id, type(e))
        if n.kind == "unpack":
            v = self.expr(n.expr, n.id)
            if isinstance(v, Built):
                items = list(v.items)
            else:
                src = v
                if n.expr[0] == "node" and n.expr[1] in w.twin:
                    src = w.twin[n.expr[1]]       # the real one is consumed by the run
                try:
                    items = list(itertools.islice(iter(src), n.length + 1))
                except Exception as e:
                    raise Failure(n.id, type(e))
                if n.expr[0] == "node" and n.expr[1] in w.twin:
                    items = [Twin(x) for x in items]
            if len(items) != n.length:
                raise Failure(n.id, ValueError)
            return items
        if n.kind == "item":
            return self.node(n.src)[n.index]
        raise AssertionError(n.kind)

    def expr(self, e, nid):
        k = e[0]
        if k == "node":
            return self.node(e[1])
        if k == "obj":
            return e[1]
        if k == "dict":
            pairs = [(self.expr(a, nid), self.expr(b, nid)) for a, b in e[1]]
            out = {}
            for a, b in pairs:
                try:
                    key = concrete(a)
                    if key in out:
                        out[key] = (out[key][0], b)
                    else:
                        out[key] = (a, b)
                except Exception as e:
                    raise Failure(nid, type(e))
            return Built("dict", list(out.values()))
        items = [self.expr(x, nid) for x in e[1]]
        if k == "set":
            out = {}
            for x in items:
                try:
                    out.setdefault(concrete(x), []).append(x)
                except Exception as e:
                    raise Failure(nid, type(e))
            return Built("set", list(out.items()))
        return Built(k, items)


class Twin:
    """A Val made by the twin of a consumed generator: compared by its label."""

    def __init__(self, v):
        self.v = v


def concrete(x):
    if isinstance(x, ByValue):
        return x.v
    if isinstance(x, Twin):
        return TwinKey(x.v)
    if isinstance(x, Built):
        if x.kind == "dict":
            return {concrete(a): concrete(b) for a, b in x.items}
        if x.kind == "set":
            return {k for k, _ in x.items}
        return {"list": list, "tuple": tuple}[x.kind](concrete(y) for y in x.items)
    return x


class TwinKey:
    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return hash(getattr(self.v, "nid", self.v))

    def __eq__(self, o):
        return isinstance(o, TwinKey) and (o.v is self.v)


def match(want, got):
    """None, or where the two differ."""
    if isinstance(want, ByValue):
        if type(want.v) is not type(got) or want.v != got:
            return f"expected {want.v!r}, got {got!r}"
        if isinstance(want.v, dict) and list(want.v) != list(got):
            return f"expected keys {list(want.v)}, got {list(got)}"
        return None
    if isinstance(want, Twin):
        v = want.v
        if type(v) is not type(got) or (v.nid != got.nid if isinstance(v, Val) else v != got):
            return f"expected {v!r}, got {got!r}"
        return None
    if isinstance(want, Built):
        if type(got) is not CONTAINERS[want.kind]:
            return f"expected a {want.kind}, got a {type(got).__name__}"
        if list.__len__(got) != len(want.items) if want.kind == "list" else len(got) != len(want.items):
            return f"expected {len(want.items)} members in a {want.kind}, got {len(got)}"
        if want.kind == "dict":
            for (a, b), (x, y) in zip(want.items, got.items()):
                d = match(a, x) or match(b, y)
                if d:
                    return "in dict: " + d
            return None
        if want.kind == "set":
            got = list(got)
            for _, alts in want.items:
                if not any(match(a, x) is None for a in alts for x in got):
                    return f"in set: no member is {alts}"
            return None
        for i, (a, x) in enumerate(zip(want.items, got)):
            d = match(a, x)
            if d:
                return f"at {i}: {d}"
        return None
    if want is not got:
        return f"expected the very object {want!r} ({type(want).__name__}), got {got!r} ({type(got).__name__})"
    return None
