"""C20: the bundled progress displays render every reachable state, ending with the final one."""
import collections
import dataclasses
import datetime as dt
import decimal
import enum
import functools
import html
import html.parser
import io
import os
import pathlib
import re
import sys
import threading
import time
import traceback
import warnings

import IPython.display
import ipywidgets
import uberjob
from sim import fw, kernel, plans, regs
from uberjob.progress import Progress, composite_progress, console_progress, html_progress, ipython_progress

PROP = "C20"
QUICK = 2500
THOROUGH = 400000
RULE = ("Console, HTML (callback and file) and IPython observers, alone and combined, driven (a) by random legal "
        "notification sequences from 1-4 threads and (b) by real runs with and without a registry, under a simulated "
        "clock with delays around the refresh intervals; scopes of unorderable, mixed, nested, unprintable and unencodable "
        "values; exceptions that are hard to format; stdout encodings. Every emission must show counts that were true "
        "between the previous emission and itself, the last one the final counts, displayed elapsed times must add up to "
        "the time with at least one running call, no update thread may die and no change may stay undisplayed.")
REAL = fw.REAL_BASE + ["console, HTML and IPython observers, composite observer", "ipywidgets, traitlets",
                       "TextIOWrapper in front of the captured stdout"]
STUB = fw.STUB_BASE + ["IPython's display()", "stdout's file"]
ASSUMPTIONS = ["totals are positive", "the output (stdout, file, callback) itself does not fail",
               "the console is append-only: a finished section need not be printed again",
               "the clock does not step"]
warnings.filterwarnings("ignore", category=DeprecationWarning)

# (a pure function that parses each line of each formatted frame again)
if hasattr(traceback, "_extract_caret_anchors_from_line_segment"):
    traceback._extract_caret_anchors_from_line_segment = functools.lru_cache(10_000)(
        traceback._extract_caret_anchors_from_line_segment)

ipywidgets.VBox(), ipywidgets.IntProgress()   # (imports comm before the workers fork)
ipywidgets.Widget.close_all()


# ------------------------------------------------------------------ odd values

class Color(enum.Enum):
    RED = 1
    GREEN = "g"
    BLUE = (3,)


@dataclasses.dataclass(frozen=True)
class Key:
    a: object


class Plain:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"Plain({self.n})"

    def __eq__(self, o):
        return type(o) is Plain and o.n == self.n

    def __hash__(self):
        return self.n


class BadOrder(Plain):
    def __lt__(self, o):
        raise ValueError("cannot be ordered")

    __hash__ = Plain.__hash__


class NoTruth:
    def __bool__(self):
        raise ValueError("ambiguous")


class ArrayOrder(Plain):
    def __lt__(self, o):
        return NoTruth()

    __hash__ = Plain.__hash__


class BadStr(Plain):
    def __repr__(self):
        raise RuntimeError("no repr")

    __str__ = __repr__
    __hash__ = Plain.__hash__


class Twin(Plain):
    """Different values that look alike."""
    def __repr__(self):
        return "twin"

    __hash__ = Plain.__hash__


class Meta(type):
    def __repr__(cls):
        raise RuntimeError("no repr for the class")


class BadMeta(metaclass=Meta):
    def __init__(self, n):
        self.n = n

    def __str__(self):
        return f"badmeta{self.n}"


BM = [BadMeta(0), BadMeta(1)]
TW = [Twin(i) for i in range(3)]
UTC = dt.timezone.utc
POOLS = {
    "plain": [("s",), ("s", "x"), ("t",), (), ("a.b.c", 1)],
    "enum": [(Color.RED,), (Color.GREEN,), (Color.BLUE,), (Color.RED, 1), (Color.RED, "x")],
    "mixed": [(1,), ("1",), (None,), (True, 1), (1.5,), (b"x",), ((1, "a"),), (("a", 1),), ((None,),), (2, ("a",))],
    "nested": [((1, 2),), ((1, "2"),), (("x",),), ((),), ((1, (2, "a")),), ((1, ("a", 2)),)],
    "objects": [(Plain(1),), (Plain(2),), (Key(1),), (Key("a"),), (Plain(1), Plain(2)), (Plain(2), Plain(1))],
    "types": [(int,), (str,), (len,), (print,), (int, 1)],
    "complex": [(1j,), (2j,), (complex(0, 0),)],
    "sets": [(frozenset({1}),), (frozenset({2}),), (frozenset({1, 2}),), (frozenset(),)],
    "times": [(dt.datetime(2020, 1, 1),), (dt.datetime(2020, 1, 1, tzinfo=UTC),), (dt.date(2020, 1, 1),),
              (dt.timedelta(1),)],
    "badorder": [(BadOrder(1),), (BadOrder(2),), (ArrayOrder(1),), (ArrayOrder(2),)],
    "badstr": [(BadStr(1),), (BadStr(2),), ("ok",), (BM[0],), (BM[1],)],
    "twins": [(t,) for t in TW] + [(TW[0], 1), (TW[1], 1), (1,), ("1",)],
    "text": [("\u00e9t\u00e9",), ("\U0001f600",), ("\u65e5\u672c",), ("x" * 3000,), ("<b>&amp;</b>",), ("'\"",),
             ("a.b",), ("</td></tr>",), ("| 9 / 9 | x",), ("\u200b",), ("{}%s",), ("",)],
    "surrogate": [("\udcff",), ("a\ud800b",), ("\udcff", 1), ("ok",)],
    "lines": [("one\ntwo",), ("tab\there",), ("cr\rlf",)],
    "paths": [(pathlib.PurePosixPath("/a"),), (pathlib.PureWindowsPath("c:/a"),), (pathlib.Path("b"),), ("p",)],
    "nan": [(float("nan"),), (float("inf"),), (decimal.Decimal("NaN"),), (decimal.Decimal("sNaN"),) if False else (0.0,)],
}


def draw_pool(g):
    k = g.weighted([("plain", 3)] + [(k, 1) for k in POOLS if k != "plain"] + [("all", 2)])
    if k == "all":
        return g.sample([s for p in POOLS.values() for s in p], 6)
    return g.sample(POOLS[k], min(len(POOLS[k]), g.int(1, 6)))


class StrFails(Exception):
    def __str__(self):
        raise RuntimeError("no str")

    __repr__ = __str__


class StrOdd(Exception):
    def __str__(self):
        return 5


class Notes(Exception):
    def __init__(self, *a):
        super().__init__(*a)
        self.__notes__ = 5


def odd_exc(kind, i):
    if kind == "str-fails":
        return StrFails(i)
    if kind == "str-odd":
        return StrOdd(i)
    if kind == "notes":
        return Notes(i)
    if kind == "surrogate":
        return ValueError("bad \udcff file")
    if kind == "html":
        return ValueError("</pre><script>x</script>")
    if kind == "lines":
        return ValueError("one\ntwo\nrun:\n  9 / 9 | 0s | s")
    if kind == "no-module":
        return type("NoModule", (Exception,), {"__module__": None})(i)
    if kind == "syntax":
        return SyntaxError("odd", ("file", 1, "abc", "text"))
    if kind == "syntax2":
        return SyntaxError("odd", ("file", 3, 2, "a b\n"))
    if kind == "deep":
        e = ValueError(0)
        for n in range(300):
            try:
                raise KeyError(n) from e
            except KeyError as k:
                e = k
        return e
    if kind == "cycle":
        a, b = ValueError("a"), KeyError("b")
        a.__cause__, b.__cause__ = b, a
        return a
    if kind == "group":
        return ExceptionGroup("g", [ValueError(1), ExceptionGroup("h", [StrFails(1), ValueError("\udc80")])])
    return ValueError(f"boom {i}")


ODD_EXC = ["value", "str-fails", "str-odd", "notes", "surrogate", "html", "lines", "no-module", "syntax", "syntax2", "deep",
           "cycle", "group"]


# ------------------------------------------------------------------ the model

F = ("completed", "failed", "running", "total")


class Model:
    """Counts notifications (begun and returned) and the time with at least one running call."""

    def __init__(self):
        self.begun = collections.defaultdict(lambda: [0, 0, 0, 0])
        self.returned = collections.defaultdict(lambda: [0, 0, 0, 0])
        self.order = []
        self.running = 0
        self.since = 0
        self.busy_us = 0
        self.returns = []        # times (us) at which notifications returned
        self.left_at = None
        self.exceptions = []     # as notified

    def now(self):
        s = kernel.S.sim
        return s.now_us

    def begin(self, what, section, scope, amount=1):
        k = (section, scope)
        if k not in self.begun:
            self.order.append(k)
        self.begun[k][F.index(what)] += amount

    def end(self, what, section, scope, amount=1):
        k = (section, scope)
        self.returned[k][F.index(what)] += amount
        if what == "running":
            if not self.running:
                self.since = self.now()
            self.running += 1
        elif what in ("completed", "failed"):
            self.running -= 1
            self.returned[k][2] -= 1
            if not self.running:
                self.busy_us += self.now() - self.since
        self.returns.append(self.now())

    def final(self):
        if self.running:
            self.busy_us += self.now() - self.since
            self.since = self.now()

    def leave(self):
        if self.left_at is None:
            self.left_at = self.now()
            self.final()


class First(uberjob.progress.ProgressObserver):
    """Member that is notified before the displays."""

    def __init__(self, model):
        self.m = model

    def __enter__(self):
        pass

    def __exit__(self, *a):
        self.m.leave()

    def increment_total(self, *, section, scope, amount):
        self.m.begin("total", section, scope, amount)

    def increment_running(self, *, section, scope):
        self.m.begin("running", section, scope)

    def increment_completed(self, *, section, scope):
        self.m.begin("completed", section, scope)

    def increment_failed(self, *, section, scope, exception):
        self.m.exceptions.append(exception)
        self.m.begin("failed", section, scope)


class Last(First):
    """Member that is notified after the displays."""

    def __exit__(self, *a):
        pass

    def increment_total(self, *, section, scope, amount):
        self.m.end("total", section, scope, amount)

    def increment_running(self, *, section, scope):
        self.m.end("running", section, scope)

    def increment_completed(self, *, section, scope):
        self.m.end("completed", section, scope)

    def increment_failed(self, *, section, scope, exception):
        self.m.end("failed", section, scope)


# ------------------------------------------------------------------ displays

class Emission:
    __slots__ = ("at", "data", "lower", "upper")


class Display:
    """One observer under test and what it emitted."""

    def __init__(self, ctx, kind, model):
        self.ctx, self.kind, self.model = ctx, kind, model
        self.emissions = []
        self.prev = {}
        self.weights = None
        self.closed = False

    def emit(self, data):
        e = Emission()
        e.at = kernel.S.sim.now_us
        e.data = data
        e.lower = self.prev
        e.upper = {k: list(v) for k, v in self.model.begun.items()}
        self.prev = {k: list(v) for k, v in self.model.returned.items()}
        self.emissions.append(e)

    def watch(self, observer):
        """Capture the weights behind the elapsed times where the observer lets us see them."""
        render = getattr(observer, "_render", None)
        if render is None:
            return observer

        def spy(*a, **k):
            r = render(*a, **k)
            try:
                state = a[0] if a else k["state"]
                self.weights = [s.weighted_elapsed for m in state.values() for s in m.values()]
            except (AttributeError, LookupError, TypeError):
                pass
            return r
        try:
            observer._render = spy
        except AttributeError:
            pass
        return observer


class RawOut(io.RawIOBase):
    """Each flush of the (large) buffer in front arrives as one write."""

    def __init__(self, display):
        self.display = display

    def writable(self):
        return True

    def write(self, b):
        self.display.emit(bytes(b))
        return len(b)


class SlowText(io.TextIOWrapper):
    """A console that takes a while to take the text; the wait is outside the locks of the buffers."""
    wait = None

    def flush(self):
        super().flush()
        if self.wait is not None:
            self.wait()


class Console(Display):
    def __init__(self, ctx, model):
        super().__init__(ctx, "console", model)
        g = ctx.gen
        self.encoding = g.weighted([("utf-8", 4), ("ascii", 2), ("latin-1", 1), ("cp1252", 1)])
        self.raw = RawOut(self)
        self.stream = SlowText(io.BufferedWriter(self.raw, 1 << 22), encoding=self.encoding, errors="strict",
                               newline="\n")
        slow = g.choice([0, 0, 0, 1, 20, 100])
        if slow:
            def wait():
                if kernel.S.sim is not None:
                    ctx.fault("slow_output")
                    time.sleep(slow)
            self.stream.wait = wait
        self.observer = self.watch(console_progress.observer())

    def parse(self, data):
        """{section: text of the section}"""
        text = data.decode(self.encoding)
        out = {}
        cur = None
        body = []
        for line in text.split("\n"):
            m = re.fullmatch(r"(stale|run):", line)
            if m and m.group(1) not in out:
                cur = m.group(1)
                out[cur] = body = []
            elif line == "new exceptions:":
                cur, body = None, []
            else:
                body.append(line)
        return {k: "\n".join(v) for k, v in out.items()}

    def everything(self):
        return "".join(e.data.decode(self.encoding) for e in self.emissions)

    def rows(self, section_text, label):
        rx = pattern(label, self.encoding)
        return [(ints(m.group(1)), seconds(m.group(2)))
                for m in re.finditer(rf"(?m)^ *([^|\n]*?) *\| *([^|\n]*?) *\| {rx}$", section_text)]


class Rows(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.sections = {}
        self.cur = None
        self.text = None
        self.row = None
        self.foot = False
        self.title = None

    def handle_starttag(self, tag, attrs):
        if tag == "h3":
            self.title = ""
        elif tag == "tr":
            self.row = []
        elif tag == "td":
            self.text = ""
        elif tag == "tfoot":
            self.foot = True

    def handle_endtag(self, tag):
        if tag == "h3":
            self.cur = {"Determining stale value stores": "stale", "Running graph": "run"}.get(self.title.strip())
            if self.cur:
                self.sections[self.cur] = []
            self.title = None
        elif tag == "td" and self.row is not None and self.text is not None:
            self.row.append(self.text)
            self.text = None
        elif tag == "tr" and self.row is not None:
            if self.cur and len(self.row) >= 4:
                self.sections[self.cur].append((self.foot, *self.row[1:4]))
            self.row = None
        elif tag == "tfoot":
            self.foot = False

    def handle_data(self, data):
        if self.title is not None:
            self.title += data
        elif self.text is not None:
            self.text += data


class Html(Display):
    encoding = "utf-8"

    def __init__(self, ctx, model):
        super().__init__(ctx, "html", model)
        g = ctx.gen
        self.path = None
        slow = g.choice([0, 0, 0, 1, 20, 100])
        if g.bool(0.3):
            ctx.files()
            self.path = os.path.join(ctx.scratch, "progress.html")
            p = html_progress(self.path if g.bool(0.5) else pathlib.Path(self.path))
        else:
            def output(data):
                self.emit(bytes(data))
                if slow:
                    ctx.fault("slow_output")
                    time.sleep(slow)
            p = html_progress(output)
        self.observer = self.watch(p.observer())

    def parse(self, data):
        p = Rows()
        p.feed(data.decode("utf-8", "surrogatepass"))
        p.close()
        return p.sections

    def everything(self):
        data = self.emissions[-1].data if self.path is None else self.last
        return data.decode("utf-8", "surrogatepass")

    def rows(self, rows, label):
        rx = re.compile(pattern(squash(label), "utf-8"))
        return [(ints(r[1]), seconds(r[2].strip())) for r in rows if not r[0] and rx.fullmatch(squash(r[3]))]


class IPy(Display):
    encoding = "utf-8"

    def __init__(self, ctx, model):
        super().__init__(ctx, "ipython", model)
        self.root = None
        self.observer = self.watch(ipython_progress.observer())

    def display(self, widget):
        self.root = widget

    def parse(self, _):
        out = {}
        cur = None
        for c in self.root.children[1:]:
            if isinstance(c, ipywidgets.HTML):
                cur = {"<b>Determining stale value stores</b>": "stale", "<b>Running graph</b>": "run"}.get(c.value)
                if cur:
                    out[cur] = []
            elif cur and isinstance(c, ipywidgets.HBox) and len(c.children) == 2:
                bar, label = c.children
                out[cur].append((label.value, bar.value, bar.max))
        return out

    def everything(self):
        out, todo = [], [self.root]
        while todo:
            w = todo.pop()
            out.append(str(getattr(w, "value", "")))
            todo += getattr(w, "children", ())
        return "\n".join(out)

    def rows(self, rows, label):
        rx = re.compile(r"(?s)([^;]*); ([^;]*); " + pattern(label and label.replace("\u200b", ""), "utf-8"))
        out = []
        for text, value, top in rows:
            m = rx.fullmatch(text.replace("\u200b", ""))
            if m:
                out.append((ints(m.group(1)) + ["bar", value, top], seconds(m.group(2))))
        return out


def squash(s):
    return None if s is None else re.sub(r"\s+", " ", s.replace("\u200b", "")).strip()


def ints(s):
    return [int(x) for x in re.findall(r"\d+", s)]


def seconds(s):
    m = re.fullmatch(r"(?:(\d+)h)?(?:(\d+)m)?(\d+)s", s.strip())
    return None if m is None else int(m.group(1) or 0) * 3600 + int(m.group(2) or 0) * 60 + int(m.group(3))


def label_of(scope):
    out = []
    for v in scope:
        try:
            out.append(str(v))
        except Exception:
            out.append(None)
    if None in out:
        return None
    return ", ".join(out)


def pattern(label, encoding):
    """A regular expression for the label that leaves open how what cannot be encoded is shown."""
    if label is None:
        return r"[^\n]*"
    out = []
    for c in label:
        try:
            c.encode(encoding)
            out.append(re.escape(c))
        except UnicodeEncodeError:
            out.append(r"[^\n]{1,12}?")
    return "".join(out)


# ------------------------------------------------------------------ judging

def expected_rows(c, f, r, t, kind):
    """The two ways of writing the counts."""
    tail = [f] if f else []
    bar = ["bar", c + f, t] if kind == "ipython" else []
    return ([c, t] + tail + bar, [c, r, t] + tail + bar)


def judge(ctx, d, model):
    kind = d.kind
    final = {k: list(v) for k, v in model.returned.items()}
    if kind == "html" and d.path is not None:
        try:
            with kernel_open(d.path) as f:
                d.last = f.read()
        except OSError as e:
            ctx.fail("no-final", f"the html display never wrote its file: {e!r}")
        parsed = [d.parse(d.last)]
    elif kind == "ipython":
        if d.root is None:
            ctx.fail("no-final", "the ipython display never displayed anything")
        parsed = [d.parse(None)]
    else:
        if not d.emissions:
            ctx.fail("no-final", f"the {kind} display never emitted anything")
        n = len(d.emissions)
        picked = set(range(n)) if n <= 14 else {0, 1, 2, n - 3, n - 2, n - 1, *range(3, n, n // 8)}
        parsed = []
        for i, e in enumerate(d.emissions):
            if i in picked or kind == "console" and re.search(rb"(?m)^(run|stale):\r?$", e.data):
                parsed.append(d.parse(e.data))
                if i in picked:
                    bounds(ctx, d, e, parsed[-1])
        ctx.count(f"emissions:{kind}", n)
    shown = {}
    for p in parsed:
        shown.update(p)
    want = collections.defaultdict(list)
    for (section, scope), v in final.items():
        want[section, label_of(scope)].append((v, scope))
    total = 0
    n = 0
    lost = False
    for (section, label), vs in want.items():
        if section not in shown:
            ctx.fail("final", f"the {kind} display never showed section {section!r} ({len(final)} scopes)")
        rows = d.rows(shown[section], label)
        if label is None or "\n" in label or "\r" in label or same_pattern(label, section, want, d):
            # several labels may look the same: each count must be shown somewhere
            for v, scope in vs:
                if not any(r[0] in expected_rows(*v, kind) for r in rows):
                    ctx.fail("final", f"the last {kind} rendering does not show {text(v)} for scope {safe(scope)} of "
                                      f"{section!r}")
            lost = True
            continue
        if len(rows) != len(vs):
            ctx.fail("final", f"the last {kind} rendering has {len(rows)} lines for {len(vs)} scopes {safe(vs[0][1])} of "
                              f"{section!r}")
        left = list(rows)
        for v, scope in vs:
            hit = [r for r in left if r[0] in expected_rows(*v, kind)]
            if not hit:
                ctx.fail("final", f"the last {kind} rendering shows {[r[0] for r in rows]} for scope {safe(scope)} of "
                                  f"{section!r}; the final counts are {text(v)}")
            left.remove(hit[0])
        for r in rows:
            if r[1] is None:
                ctx.fail("elapsed", f"the {kind} display shows no elapsed time for scope {safe(vs[0][1])}")
            total += r[1]
            n += 1
    ctx.count("final_rows_checked", n)
    busy = model.busy_us / 1e6
    if not lost and not (busy - n - 1e-3 <= total <= busy + 1e-3):
        ctx.fail("elapsed", f"the elapsed times on the {kind} display add up to {total} s over {n} scopes; at least one "
                            f"call was running for {busy} s")
    if d.weights is not None and abs(sum(d.weights) - busy) > 1e-4 * (1 + len(model.returns)):
        ctx.fail("elapsed", f"the {kind} display attributes {sum(d.weights)} s in all; at least one call was running for "
                            f"{busy} s")
    if kind == "html":
        for section, rows in shown.items():
            foot = [r for r in rows if r[0]]
            vs = [v for (s, _), v in final.items() if s == section]
            if foot:
                sums = [sum(v[i] for v in vs) for i in range(4)]
                if ints(foot[0][1]) not in expected_rows(*sums, kind):
                    ctx.fail("total-row", f"the total row of {section!r} shows {foot[0][1].strip()!r}; the final counts add "
                                          f"up to {text(sums)}")
                ctx.count("total_rows_checked")
    exceptions_shown(ctx, d, model)
    if kind != "ipython" and d.emissions:
        live(ctx, d, model)


def exceptions_shown(ctx, d, model):
    """Plain exceptions can be found on the display (when there are so few that none has to be left out)."""
    if len(model.exceptions) > 60:
        return
    want = set()
    for e in model.exceptions:
        if isinstance(e, uberjob.CallError):
            e = e.__cause__
        if type(e) is ValueError and len(e.args) == 1 and re.fullmatch(r"boom [\w() ,']+", str(e.args[0])):
            want.add(e.args[0])
    if not want:
        return
    shown = html.unescape(d.everything())
    for t in want:
        ctx.count("exceptions_looked_for")
        if not re.search(rf"(?<!\w){re.escape(t)}(?!\w)", shown):
            ctx.fail("exception", f"the {d.kind} display never shows the exception ValueError({t!r})")


def same_pattern(label, section, want, d):
    """Another scope of the section could be shown like this one."""
    rx = re.compile(pattern(label, d.encoding))
    for (s, other) in want:
        if s == section and other != label:
            if other is None or rx.fullmatch(other) or re.compile(pattern(other, d.encoding)).fullmatch(label):
                return True
            if squash(other) == squash(label):
                return True
    return False


def bounds(ctx, d, e, sections):
    """What an emission shows was true at some time since the previous one."""
    for (section, scope), hi in e.upper.items():
        label = label_of(scope)
        if section not in sections or label is None or "\n" in label or "\r" in label:
            continue
        if same_pattern(label, section, {(s, label_of(c)): 0 for s, c in e.upper}, d):
            continue
        peers = [k for k in e.upper if k[0] == section and label_of(k[1]) == label]
        if len(peers) > 1:
            continue
        lo = e.lower.get((section, scope), [0, 0, 0, 0])
        rows = d.rows(sections[section], label)
        if not rows:
            if lo[3]:
                ctx.fail("missing", f"an emission of the {d.kind} display lacks scope {safe(scope)} of {section!r}")
            continue
        got = rows[0][0]
        ok = False
        for c in range(lo[0], hi[0] + 1):
            for f in range(lo[1], hi[1] + 1):
                for t in {hi[3], *range(lo[3], hi[3] + 1)}:
                    tail = [f] if f else []
                    if got == [c, t] + tail or got[:1] == [c] and got[2:] == [t] + tail and len(got) > 2 and \
                            got[1] <= hi[2] - c - f + (hi[0] - c) + (hi[1] - f):
                        ok = True
        if not ok:
            ctx.fail("counts", f"an emission of the {d.kind} display shows {got} for scope {safe(scope)} of {section!r}; "
                               f"between it and the one before, completed/failed/running(begun)/total went from {lo} to {hi}")
        ctx.count("emitted_rows_checked")


def live(ctx, d, model):
    """No change stays undisplayed for long while the run goes on."""
    end = model.left_at
    at = [e.at for e in d.emissions]
    import bisect
    for t in model.returns:
        i = bisect.bisect_left(at, t)
        if (i == len(at) or at[i] > t + 600_000_000) and t + 600_000_000 < end:
            ctx.fail("stopped", f"the {d.kind} display emitted nothing for more than 600 s after a change at "
                                f"{(t - kernel.EPOCH_US) / 1e6} s")


def text(v):
    return f"{v[0]} completed, {v[1]} failed, {v[2]} running of {v[3]}"


def safe(scope):
    label = label_of(scope)
    return "(unprintable)" if label is None else ascii(label[:80])


kernel_open = None


def _open(path):
    return open(path, "rb", opener=lambda p, f: os.open(p, f))


kernel_open = _open


# ------------------------------------------------------------------ cases

DURATIONS = [0, 0.001, 0.5, 0.999, 2.9, 3, 3.001, 10, 27, 29.9, 30, 33, 60, 100, 299, 301, 1000, 3600]


def case(ctx):
    g = ctx.gen
    model = Model()
    ctx.max_icount = 40_000_000
    kinds = g.weighted([(("console",), 4), (("html",), 4), (("console", "html"), 2), (("ipython",), 1.5),
                        (("console", "html", "ipython"), 0.7)])
    displays = [{"console": Console, "html": Html, "ipython": IPy}[k](ctx, model) for k in kinds]
    ctx.note("displays", kinds, [getattr(d, "encoding", None) for d in displays])
    out0, disp0 = sys.stdout, IPython.display.display
    con = [d for d in displays if d.kind == "console"]
    ipy = [d for d in displays if d.kind == "ipython"]
    members = [Progress(lambda: First(model))] + [Progress(lambda d=d: d.observer) for d in displays] + \
              [Progress(lambda: Last(model))]
    try:
        if con:
            sys.stdout = con[0].stream
        if ipy:
            IPython.display.display = ipy[0].display
        real = g.bool(0.35)
        sim, out = (real_run if real else direct)(ctx, model, composite_progress(*members))
    finally:
        sys.stdout, IPython.display.display = out0, disp0
        for d in con:
            d.stream.wait = None
    try:
        if regs.hang(out):
            if not real:
                ctx.fail("blocked", f"the displays never finish: {out.status} {out.detail}")
            ctx.count("hang_left_to_C07")
            return
        if sim.thread_excs:
            e = sim.thread_excs[0][1]
            ctx.fail("died", f"the update thread of a display died of {type(e).__name__}: "
                             f"{ascii(str(e)) if not isinstance(e, (StrFails, StrOdd)) else ''} (displays {kinds})")
        if out.status == "raised" and not (real and isinstance(out.exc, (uberjob.CallError, KeyboardInterrupt))):
            ctx.fail("raised", f"driving the displays raised {type(out.exc).__name__}: {out.exc}")
        if model.left_at is None:
            ctx.fail("not-exited", "the displays were not exited")
        for d in displays:
            judge(ctx, d, model)
        ctx.distinct("states", (kinds, tuple(sorted(tuple(v) for v in model.returned.values()))))
    finally:
        if ipy:
            ipywidgets.Widget.close_all()


def direct(ctx, model, progress):
    g = ctx.gen
    pool = draw_pool(g)
    phases = []
    used = 0.0
    for section in g.choice([("run",), ("stale", "run"), ("run",), ("stale",), ()]):
        for wave in range(g.weighted([(1, 4), (2, 1), (3, 0.5)])):
            scopes = [s for s in pool if g.bool(0.7)] or pool[:1]
            totals = [(s, g.small(1, 4)) for s in scopes]
            late = wave > 0
            if late:
                totals = [(s, n) for s, n in totals if s not in {s2 for sec, t2, _ in phases if sec == section
                                                                 for s2, _ in t2}]
                if not totals:
                    continue
            split = [(s, 1) for s, n in totals for _ in range(n)] if g.bool(0.2) else totals
            calls = [s for s, n in totals for _ in range(n)]
            g.shuffle(calls)
            if g.bool(0.25):
                calls = calls[:g.int(0, len(calls))]
            todo = []
            for s in calls:
                dur = g.choice(DURATIONS)
                if used > 8000:
                    dur = min(dur, 1)
                used += dur
                todo.append((s, g.choice([0, 0, 0, 0.001, 1, 3, 30]), dur,
                             None if g.bool(0.75) else g.choice(ODD_EXC), g.bool(0.01)))
            phases.append((section, split, todo))
    workers = g.int(1, 4)
    pause = g.choice([0, 0, 0.5, 3, 31, 400])
    lead = g.choice([0, 0, 3, 10])
    raises = g.bool(0.2)
    ctx.note("direct", [(s, [(safe(a), n) for a, n in t], [(safe(c[0]), *c[1:]) for c in todo]) for s, t, todo in phases],
             "workers", workers, "pause", pause)
    obs = progress.observer()
    many = g.bool(0.03)
    excs = {}

    def one(section, todo, lock):
        while True:
            with lock:
                if not todo:
                    return
                s, delay, dur, exc, forever = todo.pop(0)
            if delay:
                time.sleep(delay)
            obs.increment_running(section=section, scope=s)
            if dur:
                time.sleep(dur)
            if exc is None:
                obs.increment_completed(section=section, scope=s)
            else:
                ctx.fault("call_raises")
                e = odd_exc(exc, len(excs))
                excs[len(excs)] = e
                try:
                    raise e
                except BaseException as x:
                    obs.increment_failed(section=section, scope=s, exception=x)

    def main():
        with obs:
            if lead:
                time.sleep(lead)
            for section, totals, todo in phases:
                for s, n in totals:
                    obs.increment_total(section=section, scope=s, amount=n)
                    if g.bool(0.1):
                        time.sleep(g.choice([0.1, 3, 30]))
                if many:
                    obs.increment_total(section=section, scope=("many",), amount=200)
                    for i in range(200):
                        obs.increment_running(section=section, scope=("many",))
                        obs.increment_failed(section=section, scope=("many",), exception=ValueError(i))
                lock = threading.Lock()
                ts = [threading.Thread(target=one, args=(section, todo, lock)) for _ in range(workers - 1)]
                for t in ts:
                    t.start()
                one(section, todo, lock)
                for t in ts:
                    t.join()
            if pause:
                time.sleep(pause)
            if raises:
                raise uberjob.CallError(uberjob.Plan().call(len, "x"))
    sim = ctx.new_sim(max_steps=400_000)

    def guarded():
        try:
            main()
        except uberjob.CallError:
            pass
    return ctx.run(guarded, sim=sim)


class LongSteps:
    def steps(self):
        g = self.g
        return tuple(g.choice([0, 1, 500, 2900, 3000, 10000, 30000, 33000, 100000]) for _ in range(g.small(0, 2)))


class PW(LongSteps, plans.PlanWorld):
    pass


class RW(LongSteps, regs.RegWorld):
    pass


def real_run(ctx, model, progress):
    g = ctx.gen
    pool = draw_pool(g)
    if g.bool(0.5):
        w = PW(ctx, n_max=10, fail_rate=0.3 if g.bool(0.5) else None, scopes=True, kinds=["value", "falsy", "nested", "group"])
        # (drawn again: PlanWorld's own scopes are plain)
        rescope(w, pool)
        output = w.draw_output()
        cfg = plans.draw_config(ctx)
        kw = dict(output=None if output is None else w.build(output))
        run = lambda: uberjob.run(w.plan, progress=progress, **kw, **cfg)
        sim = ctx.new_sim(max_steps=400_000)
        ctx.note("real", w.describe(), [safe(n.scope) for n in w.nodes])
        return ctx.run(run, sim=sim)
    from sim import regcases
    w = RW(ctx, n_max=8, scopes=True)
    rescope(w, pool)
    w.randomise_state(odd=False)
    if g.bool(0.5):
        regcases.script_failures(ctx, w, 0.15, ops=("call", "read", "write", "mt"))
    output = w.draw_output()
    cfg = regs.draw_config(ctx)
    cfg["max_errors"] = g.choice([0, 1, None])
    ctx.note("real", w.describe(), [safe(n.scope) for n in w.nodes])
    return w.run(output=output, cfg=cfg, progress=progress,
                 sim=ctx.new_sim(start_us=max(w.now_us, w.last_mtime) + 1, max_steps=400_000))


def rescope(w, pool):
    for u in w.plan.graph.nodes():
        if w.g.bool(0.7):
            u.scope = w.g.choice(pool)
