"""Random values in the domains of the bundled stores, their corruption, and strict equality."""
import dataclasses
import datetime as dt
import decimal
import enum
import fractions
import math

CHARS = ["a", "b", " ", "\n", "\r", "\r\n", "\t", "\0", "\x0b", "\x0c", "\x1a", "\x1c", "\x7f", "\x85", "\xa0", "é", "ß",
         "\u2028", "\u2029", "\ufeff", "中", "\U0001f600", "\uffff", '"', "\\", "'", "{", "}", ",", "\\n", "\ud7ff", "\x00x"]
LATIN = [c for c in CHARS if all(ord(x) < 256 for x in c)]
ASCII = [c for c in CHARS if all(ord(x) < 128 for x in c)]
# (encoding, alphabet)
ENCODINGS = [(None, CHARS), ("utf-8", CHARS), ("utf-16", CHARS), ("utf-32", CHARS), ("latin-1", LATIN), ("ascii", ASCII),
             ("utf-8-sig", CHARS), ("utf-16-le", CHARS), ("utf-16-be", CHARS), ("gb18030", CHARS)]


# further encodings; texts are restricted to what the codec itself round-trips in one piece
ODD_ENCODINGS = ["utf-7", "cp1252", "cp037", "shift_jis", "euc_jp", "koi8-r", "big5", "iso2022_jp", "mac_roman", "cp437"]
RANGES = [(0, 0x7f), (0x80, 0xff), (0x100, 0x2ff), (0x370, 0x5ff), (0x1d00, 0x206f), (0x3040, 0x30ff), (0x4e00, 0x9fff),
          (0xe000, 0xf8ff), (0xfb00, 0xfeff), (0xff00, 0xffff), (0x10000, 0x1ffff), (0xe0000, 0x10ffff), (0xd7f0, 0xd7ff)]


def any_text(g, encoding=None):
    """Any code points that the encoding can represent."""
    n = g.small(1, 20)
    out = []
    for _ in range(n):
        if g.bool(0.3):
            c = g.choice(CHARS)
        else:
            lo, hi = g.choice(RANGES)
            c = chr(g.int(lo, hi))
        if representable(c, encoding):
            out.append(c)
    s = "".join(out)
    return s if representable(s, encoding) else "".join(c for c in s if ord(c) < 128 and representable(c, encoding))


def representable(s, encoding):
    try:
        return s.encode(encoding or "utf-8").decode(encoding or "utf-8") == s
    except UnicodeError:
        return False


def huge(g):
    """A large length, log-uniform up to 32 MiB, often next to a power of two."""
    n = 1 << g.int(12, 24)
    return n + g.choice([0, 1, -1, 0, g.int(0, n)])


def repeat(s, n):
    return (s * (n // len(s) + 1))[:n]


def text(g, alphabet=CHARS, big=0.15):
    size = g.weighted([("short", 6), ("empty", 1), ("edge", 2), ("long", 2), ("huge", big)])
    if size == "empty":
        return ""
    if size == "huge":
        # characters that an encoding writes in one go, and something else at the far end
        return repeat("".join(g.choice(alphabet) for _ in range(g.int(1, 5))), huge(g) // 2) + g.choice(alphabet)
    s = "".join(g.choice(alphabet) for _ in range(g.small(1, 12)))
    if size == "edge":
        # something interesting across a buffer boundary
        pad = g.choice([4095, 8191, 8190, 8192, 16383]) + g.int(-2, 2)
        return "x" * pad + s
    if size == "long":
        return s * (1 + 20000 // len(s))
    return s


def binary(g):
    size = g.weighted([("short", 5), ("empty", 1), ("long", 2), ("huge", 0.15)])
    if size == "empty":
        return b""
    if size == "huge":
        return repeat(bytes(g.int(0, 255) for _ in range(g.int(1, 5))), huge(g)) + b"\n\r\0"
    s = bytes(g.int(0, 255) for _ in range(g.small(1, 12)))
    return s * (1 + 20000 // len(s)) if size == "long" else s


def integer(g):
    return g.choice([0, 1, -1, 7, 2 ** 31, -2 ** 63, 2 ** 64, 10 ** 30, 255])


def real(g):
    return g.choice([0.0, -0.0, 1.5, -2.25, 1e300, 5e-324, 0.1, 123456789.123456789, 1e22])


def nested(g, inner):
    """inner below up to 150 levels of lists and dicts"""
    v = inner
    for i in range(g.int(5, 150)):
        v = [v] if g.bool(0.5) else {"k": v}
    return v


def json_value(g, depth=0):
    if depth == 0 and g.bool(0.05):
        how = g.choice(["nested", "long-list", "long-dict"])
        if how == "nested":
            return nested(g, json_value(g, 2))
        n = g.choice([100, 1000, 5000])
        vs = [json_value(g, 3) for _ in range(5)]
        if how == "long-list":
            return [vs[i % 5] if len(str(vs[i % 5])) < 100 else i for i in range(n)]
        return {f"{i}": i for i in range(n)}
    k = g.weighted([("str", 4), ("int", 3), ("float", 2), ("const", 2), ("list", 2 if depth < 3 else 0),
                    ("dict", 3 if depth < 3 else 0)])
    if k == "str":
        return text(g, big=0.15 if depth == 0 else 0.02)
    if k == "int":
        return integer(g)
    if k == "float":
        return real(g)
    if k == "const":
        return g.choice([None, True, False])
    n = g.small(0, 4)
    if k == "list":
        return [json_value(g, depth + 1) for _ in range(n)]
    return {text(g)[:40]: json_value(g, depth + 1) for _ in range(n)}


@dataclasses.dataclass
class Point:
    x: object
    y: object


@dataclasses.dataclass(frozen=True)
class Frozen:
    x: object


class Plain:
    def __init__(self, v):
        self.v = v


class Slotted:
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a = a
        self.b = b


class Colour(enum.Enum):
    RED = 1
    BLUE = 2


class StrSub(str):
    pass


class ListSub(list):
    pass


class NoCopy:
    """Picklable through __reduce__ only."""

    def __init__(self, n):
        self.n = n

    def __reduce__(self):
        return NoCopy, (self.n,)


def hashable(g):
    return g.choice([1, "k", ("t", 2), b"b", 2.5, frozenset([1, 2]), Colour.RED, None, True, Frozen(3)])


def pickle_value(g, depth=0):
    k = g.weighted([("json", 3), ("atom", 4), ("list", 2 if depth < 3 else 0), ("tuple", 2 if depth < 3 else 0),
                    ("dict", 2 if depth < 3 else 0), ("set", 1), ("obj", 2 if depth < 3 else 0),
                    ("shared", 1 if depth < 2 else 0), ("cyclic", 1 if depth < 1 else 0)])
    if k == "json":
        return json_value(g, 2)
    if k == "atom":
        return g.choice([b"bytes", bytearray(b"ba"), 1 + 2j, float("nan"), float("inf"), dt.datetime(2020, 1, 1, 2, 3, 4, 5),
                         dt.timedelta(days=3), decimal.Decimal("1.10"), fractions.Fraction(1, 3), Colour.BLUE, range(3),
                         len, StrSub("s"), "\ud800", Ellipsis, int, NoCopy(4), slice(1, 2, 3),
                         dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc), math.pi, 2 ** 100])
    n = g.small(0, 4)
    if k == "list":
        v = [pickle_value(g, depth + 1) for _ in range(n)]
        return ListSub(v) if g.bool(0.15) else v
    if k == "tuple":
        return tuple(pickle_value(g, depth + 1) for _ in range(n))
    if k == "dict":
        return {hashable(g): pickle_value(g, depth + 1) for _ in range(n)}
    if k == "set":
        v = {hashable(g) for _ in range(n)}
        return frozenset(v) if g.bool(0.3) else v
    if k == "shared":
        v = [pickle_value(g, depth + 1)]
        return [v, (v, v), {"k": v}]
    if k == "cyclic":
        v = [1]
        v.append(v)
        return {"c": v}
    return g.choice([lambda v: Point(v, 1), lambda v: Plain(v), lambda v: Slotted(v, [v]), lambda v: Frozen(2)])(
        pickle_value(g, depth + 1))


def equal(a, b, memo=None):
    """Equal and of the same type, all the way down."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    memo = memo if memo is not None else set()
    key = id(a), id(b)
    if key in memo:
        return True
    memo.add(key)
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b) or a != a and b != b
    if isinstance(a, dict):
        if len(a) != len(b):
            return False
        return all(equal(k1, k2, memo) and equal(v1, v2, memo) for (k1, v1), (k2, v2) in zip(a.items(), b.items()))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y, memo) for x, y in zip(a, b))
    if isinstance(a, (Plain, Point, NoCopy)):
        return equal(vars(a), vars(b), memo)
    if isinstance(a, Slotted):
        return equal(a.a, b.a, memo) and equal(a.b, b.b, memo)
    return a == b


def short(v):
    return f"{type(v).__name__} of length {len(v)}: {v[:20]!r}" if isinstance(v, (str, bytes)) and len(v) > 1000 else repr(v)[:60]


class Bad(Exception):
    pass


class BadBase(BaseException):
    pass


class Unpicklable:
    def __init__(self, exc):
        self.exc = exc

    def __reduce__(self):
        raise self.exc


def bad_exception(g):
    return g.choice([Bad("serialise"), ValueError("serialise"), BadBase("serialise"), KeyboardInterrupt("serialise"),
                     OSError(5, "serialise"), MemoryError()])


def bad_json(g):
    inner = g.choice([object(), {1, 2}, b"x", {("t",): 1}, "cyc"])
    v = [text(g) for _ in range(g.int(0, 3))] + ["x" * 9000 * g.int(0, 2)]
    if inner == "cyc":
        v.append(v)
    else:
        v.append(inner)
    return {"a": v}


def bad_pickle(g):
    v = [b"x" * 9000 * g.int(0, 8), text(g)]
    v.append(g.choice([Unpicklable(bad_exception(g)), lambda: 1]))
    return {"a": v}


def bad_text(g):
    return g.choice([5, None, b"bytes", ["x"], "x" * g.choice([0, 9000, 30000]) + "\ud800"])


def bad_binary(g):
    return g.choice([5, None, "text", ["x"], object()])


def bad_touch(g):
    return g.choice([0, "", False, [], b""])
