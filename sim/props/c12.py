"""C12: stores return what was written and report modified times faithfully."""
import datetime as dt
import os
import tempfile
import time

from sim import files, fsim, fw, kernel, values
from uberjob import stores

PROP = "C12"
QUICK = 20000
THOROUGH = 900000
RULE = ("1-3 threads, each with its own bundled store (or MountedStore over one) on a str / pathlib / relative path, doing "
        "sequences of writes, failing writes, writes cut by an I/O error, deletions, files and links put there by others, reads through the same and through "
        "another store object and modified-time queries, under short reads and writes, several buffer sizes, encodings, "
        "process time zones and start times around daylight-saving transitions and the epoch.")
REAL = ["uberjob.stores", "io.BufferedReader/Writer/TextIOWrapper/FileIO", "pickle, json, shutil, tempfile",
        "the kernel's file system below a scratch directory"]
STUB = ["short reads and writes and errors at the raw file / os.* seam", "modified times (simulated clock)",
        "thread scheduler"]
ASSUMPTIONS = ["the clock that stamps files does not run backwards", "one writer per path at a time",
               "modified times are judged as instants (naive = process local time, with fold)",
               "JSON values are those json itself round-trips (no adjacent lone surrogates, no NaN)"]

ZONES = ["UTC", "America/New_York", "Europe/London", "Australia/Lord_Howe", "Asia/Kolkata", "Pacific/Apia"]
ZONE_RULES = {"America/New_York": "EST5EDT,M3.2.0,M11.1.0", "Europe/London": "GMT0BST,M3.5.0/1,M10.5.0",
              "Australia/Lord_Howe": "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", "Asia/Kolkata": "IST-5:30",
              "Pacific/Apia": "<+13>-13", "UTC": "UTC0"}
STARTS = [kernel.EPOCH_US, 1604206740_000000, 1615705140_000000, 1603587540_000000, 1_000_000, 1585997940_000000]


def instant_us(d):
    """The instant a modified time denotes, in microseconds."""
    if d.tzinfo is None:
        local = time.mktime((d.year, d.month, d.day, d.hour, d.minute, d.second, -1, -1, 0))
        # mktime may choose either side of a repeated hour: settle it by fold
        off = []
        for cand in (local - 7200, local - 3600, local - 1800, local, local + 1800, local + 3600, local + 7200):
            lt = time.localtime(cand)
            if lt[:6] == (d.year, d.month, d.day, d.hour, d.minute, d.second):
                off.append(cand)
        off = sorted(set(off))
        t = off[min(d.fold, len(off) - 1)] if off else local
        return int(t) * 1_000_000 + d.microsecond
    delta = d - dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc)
    return delta // dt.timedelta(microseconds=1)


def case(ctx):
    g = ctx.gen
    fs = ctx.files()
    os.mkdir(os.path.join(ctx.scratch, "tmp"))
    tempfile.tempdir = os.path.join(ctx.scratch, "tmp")
    fsim.BUFFER_SIZE = g.choice([8192, 512, 16, 8192, 65536])
    zone = g.choice(ZONES)
    os.environ["TZ"] = ZONE_RULES[zone]
    time.tzset()
    try:
        body(ctx, fs, zone)
    finally:
        os.environ["TZ"] = "UTC"
        time.tzset()
        fsim.BUFFER_SIZE = 8192


class Slot:
    pass


def body(ctx, fs, zone):
    g = ctx.gen
    fs.strict = g.bool(0.5)
    start = g.choice(STARTS)
    fs.last_stamp = 0
    slots = []
    for i in range(g.weighted([(1, 5), (2, 2), (3, 1)])):
        s = Slot()
        root = os.path.join(ctx.scratch, f"d{i}")
        os.mkdir(root)
        s.made = files.Made(g, g.choice(files.KINDS + ["any-text", "any-text"]))
        s.given, s.path = files.draw_path(g, root)
        if not os.path.isabs(str(s.given)) and i:
            os.chdir(ctx.scratch)
            s.given = s.path
        s.store = s.made.make(s.given)
        s.ops = []
        s.obstacle = os.path.join(ctx.scratch, f"obstacle{i}")
        fs.put(s.obstacle, b"x")
        for _ in range(g.int(1, 5)):
            op = g.weighted([("write", 6), ("bad", 1), ("fault", 1), ("remove", 1), ("staging", 1), ("sleep", 2), ("old", 0.5), ("foreign", 0.8)])
            v = None
            if op in ("write", "fault"):
                v = s.made.value()
            elif op == "bad":
                if s.made.bad is None:
                    continue
                v = s.made.bad()
            elif op == "sleep":
                v = g.choice([0.000001, 0.4, 1, 3599, 3600, 1801])
            elif op == "old":
                v = g.choice([0, 1, -1, -3600, 1_000_000_000])
            elif op == "foreign":
                v = (g.choice(["file", "link", "dangling"]), g.choice([b"", b"foreign", b"F" * 3000]))
            k = g.small(0, 12)
            s.ops.append((op, v, k, g.choice([5, 28])))
        s.ops.append(("write", s.made.value(), 0, 0))
        ctx.count("store:" + s.made.kind)
        slots.append(s)
    # the relative paths of the first store keep working when it is alone
    if len(slots) > 1:
        for s in slots:
            s.given = s.path
            s.store = s.made.make(s.path)
        os.chdir(ctx.scratch)
    big = g.bool(0.3)
    if big:
        div = g.choice([2, 7, 1000])
        budget = [20000]

        def short(kind, n):
            if budget[0] <= 0 or n >= 20000 and div != 2:
                return n
            budget[0] -= 1
            return max(1, n // div)
        fs.short = short
        ctx.fault("short_io")
    ctx.note("zone", zone, "start", start, "strict", fs.strict, "buffer", fsim.BUFFER_SIZE)
    for s in slots:
        ctx.note(s.made.label, repr(s.given).replace(ctx.scratch, "<scratch>"),
                 [(o[0], values.short(o[1])) for o in s.ops])
    problems = []
    sim = ctx.new_sim(start_us=start, max_steps=2_000_000)

    def main():
        import threading
        ts = [threading.Thread(target=drive, args=(ctx, fs, s, problems, True)) for s in slots[1:]]
        for t in ts:
            t.start()
        drive(ctx, fs, slots[0], problems, len(slots) > 1)
        for t in ts:
            t.join()
    sim, out = ctx.run(main, sim=sim)
    fs.short = None
    if problems:
        ctx.fail(*problems[0])
    if out.status != "returned":
        raise fw.HarnessError(f"C12: {out.status} {out.detail} {out.exc!r}")
    left = fs.listing("tmp")
    if left:
        ctx.count("temp_files_left")


FOREIGN = object()  # something the store did not write


class Stop(Exception):
    pass


def drive(ctx, fs, s, problems, shared):
    try:
        steps(ctx, fs, s, problems, shared)
    except Stop:
        pass


def steps(ctx, fs, s, problems, shared):
    made, store = s.made, s.store
    has, value, last = False, None, None
    # the thread whose operations fail: only ours
    def bad(key, msg):
        problems.append((key, f"{made.label}: {msg}"))
        raise Stop

    def observe(what):
        nonlocal last
        for st in (store, made.make(s.given)):
            try:
                m = st.get_modified_time()
            except Exception as e:
                bad("mtime-raised", f"get_modified_time {what} raised {e!r}")
            if (m is not None) != has:
                bad("mtime-none", f"get_modified_time {what} is {m!r} although a value is "
                                  f"{'stored' if has else 'not stored'}")
            if m is None:
                continue
            if not isinstance(m, dt.datetime):
                bad("mtime-type", f"get_modified_time {what} is {m!r}")
            us = instant_us(m)
            true = fs.mtime_us(s.path)
            if last is not None and us < last:
                bad("mtime-decreased", f"get_modified_time {what} went back by {last - us} us")
            if abs(us - true) > 1000:
                bad("mtime-wrong", f"get_modified_time {what} is {m!r}, which is {us - true} us away from the time of "
                                   f"the file")
            last = us
            ctx.count("mtimes_checked")
        if has and value is FOREIGN:
            pass
        elif has:
            for st in (store, made.make(s.given)):
                try:
                    got = st.read()
                except Exception as e:
                    bad("read-raised", f"read {what} raised {e!r}; written: {value!r:.200}")
                if not values.equal(value, got):
                    bad("round-trip", f"read {what} returned {got!r:.200} ({type(got).__name__}) instead of {value!r:.200}")
                ctx.count("reads_checked")
        else:
            try:
                got = store.read()
            except Exception:
                pass
            else:
                bad("read-nothing", f"read {what} returned {got!r:.100} although nothing is stored")
    observe("before anything was written")
    if made.kind != "mounted":
        # a place where nothing can be stored: below a file, or with a name that is too long
        for nowhere in (os.path.join(s.obstacle, "v"), s.path + "v" * 300):
            try:
                m = made.make(nowhere).get_modified_time()
            except Exception as e:
                bad("mtime-raised", f"get_modified_time of a path that cannot exist raised {e!r}")
            if m is not None:
                bad("mtime-none", f"get_modified_time of a path that cannot exist is {m!r}")
    for op, v, k, err in s.ops:
        if op == "write":
            try:
                store.write(v)
            except Exception as e:
                bad("write-raised", f"writing {v!r:.200} raised {e!r}")
            has, value = True, v
            ctx.count("writes")
        elif op == "bad":
            try:
                store.write(v)
            except BaseException as e:
                if isinstance(e, kernel.SimKilled):
                    raise
                ctx.fault("serialisation_error")
            else:
                return         # accepted: what was stored is unknown to the model
        elif op == "fault":
            base = os.path.relpath(os.path.dirname(s.path), fs.root)
            count = [0]
            hit = []

            def plan(no, kind, rel):
                mine = rel is not None and (rel.startswith(base) or made.kind == "mounted" and rel.startswith("tmp"))
                if not mine or kind in ("remove", "rmdir", "mkdir", "read", "chmod", "utime"):
                    return None
                count[0] += 1
                if count[0] == k + 1:
                    hit.append(kind)
                    return ("err", err)
                return None
            if fs.plan is not None or made.kind == "mounted" and shared:
                continue
            fs.plan = plan
            before = fs.bytes(s.path)
            try:
                store.write(v)
                ok = True
            except OSError:
                ok = False
            finally:
                fs.plan = None
            if hit:
                ctx.fault("io_error")
            if ok:
                has, value = True, v
            elif fs.bytes(s.path) != before:
                return         # (atomicity is C11's business)
        elif op == "remove":
            fs.remove(s.path)
            has, last = False, None
        elif op == "foreign":
            # somebody put a file (or a link to one) where the value goes
            how, data = v
            fs.remove(s.path)
            has, value, last = how != "dangling", FOREIGN, None
            at = s.path
            if how != "file":
                at = os.path.join(ctx.scratch, "elsewhere-" + os.path.basename(s.obstacle))
                fs.remove(at)
                os.symlink(at, s.path)
            if how != "dangling":
                fs.put(at, data)
            ctx.count("foreign:" + how)
        elif op == "staging":
            fs.put(s.path + ".STAGING", b"left behind")
            ctx.fault("leftover_staging_file")
        elif op == "sleep":
            time.sleep(v)
        elif op == "old":
            if has and v * 1_000_000 < fs.now_us():
                # somebody set the time of the file back: it is still stored
                os.utime(s.path, (v, v))
                last = None
        observe(f"after {op}")
