"""C18: what a run treats as out of date depends only on instants."""
import datetime as dt
import os
import tempfile
import time
import zoneinfo

from sim import fw, hist, kernel, regs
from sim.props.c12 import ZONE_RULES, instant_us
from uberjob import stores

PROP = "C18"
QUICK = 12000
THOROUGH = 1500000
RULE = ("Random plans whose stores' modified times and fresh_time are constructed from known instants and reported in a "
        "mix of forms (naive local with fold, aware in fixed offsets, aware in zones with daylight saving, datetime "
        "subclasses, tzinfo without offset, datetime.min / max), by in-memory stores, the bundled file stores on real "
        "files, PathSource, LiteralSource and ModifiedTimeSource, in processes of several time zones with instants "
        "packed around their daylight-saving transitions; the stores rewritten and the calls executed by each run of a "
        "history are compared with a decision computed from the instants alone.")
REAL = fw.REAL_BASE + ["bundled file stores, PathSource, LiteralSource, ModifiedTimeSource", "libc time zone rules (TZ)"]
STUB = fw.STUB_BASE + ["values of in-memory stores", "modified times (simulated clock)"]
ASSUMPTIONS = ["a naive datetime denotes local time, with fold; local times that a DST gap skips are not used",
               "naive datetime.min and datetime.max stand for 'before' and 'after everything'"]

RULES = dict(ZONE_RULES, **{
    "Baker": "<-12>12", "Kiribati": "<+14>-14", "Nepal": "<+0545>-5:45", "Lisbon": "WET0WEST,M3.5.0/1,M10.5.0",
    "Santiago": "<-04>4<-03>,M9.1.6/24,M4.1.6/24", "winter-negative": "IST-1GMT0,M10.5.0,M3.5.0/1"})
ZONES = sorted(RULES)
NEG, POS = -10 ** 30, 10 ** 30


def us(*a):
    return int(dt.datetime(*a, tzinfo=dt.timezone.utc).timestamp()) * 1_000_000


# around transitions of the zones above, both directions, and elsewhere
STARTS = {
    "America/New_York": [us(2020, 11, 1, 6), us(2021, 3, 14, 7)],
    "Europe/London": [us(2020, 10, 25, 1), us(2021, 3, 28, 1)],
    "Lisbon": [us(2020, 10, 25, 1), us(2021, 3, 28, 1)],
    "winter-negative": [us(2020, 10, 25, 1), us(2021, 3, 28, 1)],
    "Australia/Lord_Howe": [us(2021, 4, 3, 15), us(2020, 10, 3, 15, 30)],
    "Santiago": [us(2021, 4, 4, 3), us(2020, 9, 6, 4)],
}
ANY = [s for l in STARTS.values() for s in l] + [kernel.EPOCH_US, 2_000_000_000_000_000, us(1971, 1, 1), us(2020, 2, 29),
                                                 us(2020, 12, 31, 23, 59, 59)]
DELTAS = [0, 0, 1, 1_000_000, 900_000_000, 1_800_000_000, 2_700_000_000, 3_599_999_999, 3_600_000_000, 3_600_000_001,
          5_400_000_000, 7_200_000_000, 43_200_000_000, 86_400_000_000]


class NoOffset(dt.tzinfo):
    """A tzinfo that does not know its offset: the datetime counts as naive."""

    def utcoffset(self, d):
        return None

    def dst(self, d):
        return None

    def tzname(self, d):
        return None

    def __repr__(self):
        return "NoOffset()"


class Stamp(dt.datetime):
    pass


def zone(name):
    try:
        return zoneinfo.ZoneInfo(name)
    except Exception:
        return dt.timezone(dt.timedelta(hours=3))


AWARE = [dt.timezone.utc, dt.timezone(dt.timedelta(hours=5, minutes=45)), dt.timezone(-dt.timedelta(hours=8)),
         dt.timezone(dt.timedelta(hours=14)), dt.timezone(-dt.timedelta(hours=12)),
         dt.timezone(-dt.timedelta(hours=4, minutes=56, seconds=2)), zone("America/New_York"), zone("Europe/London"),
         zone("Australia/Lord_Howe"), zone("UTC"), zone("Pacific/Apia")]
NFORMS = 4 + len(AWARE)


def express(t, form, any_zone=False):
    """The instant t (microseconds) as a datetime in the given form."""
    if t in (NEG, POS):
        d = dt.datetime.min if t == NEG else dt.datetime.max
        return d.replace(tzinfo=AWARE[form - 4 if any_zone else 0]) if form >= 4 else d
    if form >= 4:
        return (regs.EPOCH + dt.timedelta(microseconds=t)).replace(tzinfo=dt.timezone.utc).astimezone(AWARE[form - 4])
    d = dt.datetime.fromtimestamp(t // 1_000_000).replace(microsecond=t % 1_000_000)
    if instant_us(d) != t:
        raise fw.HarnessError(f"instant {t} became {d!r} fold={d.fold}")
    if form == 1:
        d = Stamp(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, fold=d.fold)
    elif form == 2:
        d = d.replace(tzinfo=NoOffset())
    return d


class ZoneWorld(regs.RegWorld):
    def __init__(self, ctx, start, mix, **kw):
        self.fs = ctx.files()
        os.mkdir(os.path.join(ctx.scratch, "tmp"))
        tempfile.tempdir = os.path.join(ctx.scratch, "tmp")
        self.fs.strict = True
        self.fs.last_stamp = 0
        self.backend = {}
        self.mix = mix
        self.start = start
        super().__init__(ctx, **kw)
        self.now_us = start
        self.last_mtime = 0

    def new_store(self):
        sid = super().new_store()
        self.backend[sid] = self.g.weighted(self.mix)
        return sid

    def path(self, sid):
        return os.path.join(self.fs.root, f"s{sid}")

    def time_value(self, t, form):
        # datetime.min in one zone and in another are different instants: mix zones only if nothing else is that extreme
        return express(t, form, all(x != t for _, x in self.state.values()))

    def put(self, sid, value, t):
        """Outside runs: the store holds value, modified at t."""
        if self.backend[sid] == "file":
            self.fs.put(self.path(sid), str(value).encode(), t)
        self.state[sid] = (value, t)

    def tick(self):
        sim = kernel.S.sim
        now = sim.now_us if sim is not None else self.now_us
        self.last_mtime = self.fs.last_stamp = max(self.last_mtime, self.fs.last_stamp, now - 1) + 1
        return self.last_mtime

    def set_source(self, sid):
        self.put(sid, regs.h("src", sid, self.tick_value()), self.tick())

    def drop(self, sid):
        if self.backend[sid] == "file":
            self.fs.remove(self.path(sid))
        del self.state[sid]

    def eff_write(self, sid, value):
        if self.backend[sid] == "file":
            stores.TextFileStore(self.path(sid)).write(str(value))
            t = self.fs.mtime_us(self.path(sid))
            self.last_mtime = max(self.last_mtime, t)
            self.state[sid] = (value, t)
        else:
            super().eff_write(sid, value)

    def eff_mtime(self, sid):
        b = self.backend[sid]
        if b == "file":
            if self.form[sid] % 2:
                return stores.PathSource(self.path(sid), required=False).get_modified_time()
            return stores.TextFileStore(self.path(sid)).get_modified_time()
        m = super().eff_mtime(sid)
        if b == "literal":
            return stores.LiteralSource(None, m).get_modified_time()
        if b == "mts":
            return stores.ModifiedTimeSource(m).get_modified_time()
        return m

    def randomise(self):
        """Values from scratch, instants packed around the start."""
        g = self.g
        _, raw = self.scratch()
        mode = g.choice(["ordered", "ordered", "random"])
        scale = g.choice([0, 3, 4, len(DELTAS) - 1])
        hi = self.start
        t = self.start - g.choice(DELTAS)
        for n in self.nodes:
            if n.sid is None:
                continue
            if n.kind != "src" and g.bool(0.08):
                if n.sid in self.state:
                    self.drop(n.sid)
                continue
            if mode == "random":
                t = self.start + g.choice([-1, 1]) * g.choice(DELTAS)
            else:
                t += g.choice(DELTAS[:6]) if scale == 0 else g.choice(DELTAS[:scale + 1]) * g.choice([1, 1, 1, -1, 0])
            v = raw[n.id]
            if n.kind != "src" or v is None:
                v = v if v is not None else regs.h("junk", n.sid)
            x = t
            if g.bool(0.02) and self.backend[n.sid] != "file":
                x = NEG if n.kind == "src" or g.bool(0.5) else POS
            else:
                hi = max(hi, t)
            self.put(n.sid, v, x)
        self.now_us = hi + g.choice([1, 1_000_000, 3_600_000_000])
        self.last_mtime = self.fs.last_stamp = hi


def case(ctx):
    g = ctx.gen
    z = g.choice(ZONES)
    os.environ["TZ"] = RULES[z]
    time.tzset()
    try:
        body(ctx, z)
    finally:
        os.environ["TZ"] = "UTC"
        time.tzset()


def body(ctx, z):
    g = ctx.gen
    forms = g.choice([tuple(range(NFORMS)), (0,), (0, 4), (0, 3, 9), (4, 5, 10), (0, 1, 2)])
    mix = g.choice([[("mem", 1)], [("file", 1)], [("mem", 2), ("file", 2), ("literal", 1), ("mts", 1)]])
    start = g.choice(STARTS.get(z, ANY)) if g.bool(0.75) else g.choice(ANY)
    w = ZoneWorld(ctx, start, mix, n_max=g.choice([2, 4, 8, 12]), forms=forms, p_dep=g.choice([0, 0, 1]),
                  p_reg=g.choice([0.5, 0.9]), p_src=0.3, durations=g.bool(0.3), odd_sources=0.2)
    w.randomise()
    h = hist.History(ctx, w)
    ctx.note("zone", z, "start", start, "plan", w.describe(), "forms", w.form, "backends", w.backend)
    fresh = None
    for i in range(g.int(1, 4)):
        if i:
            for _ in range(g.int(0, 2)):
                perturb(ctx, w)
            if g.bool(0.15):
                z = g.choice(ZONES)
                os.environ["TZ"] = RULES[z]
                time.tzset()
                ctx.fault("time_zone_changed")
                ctx.note("zone", z)
        if g.bool(0.5):
            times = sorted({t for _, t in w.state.values()})
            if times and g.bool(0.7):
                fresh = g.choice(times)
                if fresh not in (NEG, POS):
                    fresh += g.choice([0, 0, 1, -1, 3_600_000_000, -3_600_000_000, 1_800_000_000])
            else:
                fresh = g.choice([w.now_us, None, w.now_us - g.choice(DELTAS), NEG, POS])
        for sid in w.form:
            if g.bool(0.3):
                w.form[sid] = g.choice(forms)
        form = g.choice(forms)
        output = w.draw_output()
        want = w.predict(output, fresh)
        state = {s: (t if t in (NEG, POS) else t - start) for s, (_, t) in sorted(w.state.items())}
        ctx.note("run", i, "state", state, "fresh", fresh, "form", form, "output", output, "writes", sorted(want["writes"]))
        if want["writes"] and len(want["writes"]) < sum(1 for n in w.nodes if n.sid is not None and not n.is_source):
            ctx.count("mixed_decisions")
        if any(t not in (NEG, POS) and dst_ambiguous(t) for _, t in w.state.values()):
            ctx.count("states_with_repeated_local_times")
        cfg = regs.draw_config(ctx)
        sim, out = w.run(output=output, fresh_us=fresh, fresh_form=form, cfg=cfg)
        if regs.hang(out):
            ctx.count("hang_left_to_C07")
            return
        if out.status != "returned":
            ctx.fail("raised", f"run {i + 1} raised {out.exc!r} from {out.exc.__cause__!r}")
        got = set(w.writes)
        describe = f"in zone {z} with fresh_time {None if fresh is None else repr(w.time_value(fresh, form))}"
        if got != want["writes"]:
            odd = sorted(got ^ want["writes"])[0]
            verb = "rewrote" if odd in got else "did not rewrite"
            ctx.fail("decision", f"run {i + 1} {verb} store {odd} (n{w.node_of[odd].id}), against what the instants say; "
                                 f"{describe}")
        if set(w.calls) != want["calls"]:
            odd = sorted(set(w.calls) ^ want["calls"])[0]
            ctx.fail("decision", f"run {i + 1} {'executed' if odd in w.calls else 'did not execute'} call n{odd}, against "
                                 f"what the instants say; {describe}")
        ctx.distinct("decisions", (z, tuple(sorted(want["ood"])), len(w.nodes), form, tuple(sorted(w.form.items()))))
        ctx.count("decisions_compared", len([1 for n in w.nodes if n.sid is not None]))
        ctx.nontrivial = True


def dst_ambiguous(t):
    d = dt.datetime.fromtimestamp(t // 1_000_000)
    return d.timestamp() != d.replace(fold=1 - d.fold).timestamp()


def perturb(ctx, w):
    g = ctx.gen
    what = g.choice(["update", "delete", "idle", "set"])
    w.now_us += g.choice([1, 1_000_000, 1_800_000_000, 3_600_000_000])
    if what == "update" and w.sources:
        w.set_source(g.choice(w.sources))
        ctx.fault("source_update")
    elif what == "delete":
        have = sorted(s for s in w.state if s not in w.sources)
        if have:
            w.drop(g.choice(have))
            ctx.fault("stored_value_deleted")
    elif what == "set":
        have = sorted(w.state)
        if have:
            sid = g.choice(have)
            t = w.start + g.choice([-1, 1]) * g.choice(DELTAS)
            w.put(sid, w.state[sid][0], t)
            w.now_us = max(w.now_us, t)
            w.last_mtime = w.fs.last_stamp = max(w.last_mtime, t)
            ctx.fault("modified_time_changed")
