"""C11: file-backed stores replace their file atomically at every failure point."""
import os
import pathlib
import tempfile

from sim import files, fsim, fw, kernel

PROP = "C11"
QUICK = 40000
THOROUGH = 400000
RULE = ("Sequences of writes through every file-backed store (and user stores on staged_write / staged_write_path, and a "
        "MountedStore) on str / pathlib / relative paths, with and without a previous value and with leftover staging "
        "files; in each write a serialisation error, an errno, a torn or short write, or simulated process death at a "
        "chosen file operation (or no fault); the target is inspected before and after every file operation; concurrent "
        "readers.")
REAL = ["uberjob.stores", "io.BufferedWriter/TextIOWrapper/FileIO", "pickle, json, shutil, tempfile", "the kernel's file "
        "system below a scratch directory", "stdlib threading"]
STUB = ["errors, short and torn writes at the raw file / os.* seam", "modified times (simulated clock)",
        "process death (frozen disk, unwound threads)", "thread scheduler"]
ASSUMPTIONS = ["death = the process dies; what reached the kernel survives (no power loss)",
               "one writer per path at a time", "removing a file does not fail"]


def case(ctx):
    g = ctx.gen
    fs = ctx.files()
    root = os.path.join(ctx.scratch, "d")
    os.mkdir(root)
    probe_dir = os.path.join(ctx.scratch, "probe")
    os.mkdir(probe_dir)
    os.mkdir(os.path.join(ctx.scratch, "tmp"))
    tempfile.tempdir = os.path.join(ctx.scratch, "tmp")
    made = files.Made(g, g.choice(files.KINDS))
    given, path = files.draw_path(g, root)
    store = made.make(given)
    ctx.note("store", made.label, "path", repr(given).replace(ctx.scratch, "<scratch>"))
    ctx.count("store:" + made.kind)
    fsim.BUFFER_SIZE = g.choice([8192, 512, 8192])
    siblings = {}
    if g.bool(0.3):
        for extra in (path + ".bak", path + ".STAGING2", os.path.join(root, "other")):
            fs.put(extra, b"untouched")
            siblings[os.path.relpath(extra, root)] = b"untouched"
    target = os.path.relpath(path, root)
    old_value, has_old = None, False
    old = fs.bytes(path)
    n = g.int(1, 3)
    for step in range(n + 1):
        last = step == n
        value = made.value()
        bad = not last and made.bad is not None and g.bool(0.2)
        if bad:
            value = made.bad()
        if not last and g.bool(0.25):
            junk = g.choice([b"", b"junk", b"J" * 50000])
            if not fs.listing(os.path.relpath(root, fs.root)).get(target + ".STAGING"):
                fs.put(path + ".STAGING", junk)
                ctx.fault("leftover_staging_file")
        # what this write does without faults
        fs.points = False
        fs.ops = []
        probe = made.make(os.path.join(probe_dir, "p"))
        new = expect = None
        try:
            probe.write(value)
            new = fs.bytes(os.path.join(probe_dir, "p"))
            n_ops = len(fs.ops)
        except kernel.SimKilled:
            raise
        except BaseException as e:
            probe_exc = e
            if not bad:
                raise fw.HarnessError(f"{made.label}: writing {value!r:.200} raised {e!r}")
        if new is not None:
            try:
                expect = probe.read()
            except Exception:
                ctx.count("unreadable_left_to_C12")
                return
        for f in os.listdir(probe_dir):
            fs.remove(os.path.join(probe_dir, f))
        if new is None:
            n_ops = len(fs.ops)
        kinds = [k for k, _ in fs.ops[:n_ops]]
        fs.points = True
        plan = None
        what = "none"
        if not last and n_ops and g.bool(0.85 if not bad else 0.3):
            plan, what = draw_fault(ctx, kinds)
        fs.short = None
        if g.bool(0.2):
            fs.short = lambda kind, n: max(1, n // 2)
            ctx.fault("short_writes")
        ctx.note("write", step, "bad" if bad else "good", "old", old is not None and len(old), "new",
                 new is not None and len(new), "fault", what)
        old_us = fs.mtime_us(path)
        before = set(fs.listing(os.path.relpath(root, fs.root)))
        problems = []
        state = {"seen_new": False, "signature": ()}

        def observe(kind, rel, phase):
            signature = fs.signature(path)
            if signature == state["signature"]:
                return
            state["signature"] = signature
            cur = fs.bytes(path)
            if cur != old and (new is None or cur != new):
                problems.append(("mixed", f"{phase} {kind}: the target holds {desc(cur)}; the previous value is "
                                          f"{desc(old)}, the new one {desc(new)}"))
                return
            if cur == old and cur != new:
                if state["seen_new"]:
                    problems.append(("reverted", f"{phase} {kind}: the target went back to the previous value"))
                if cur is not None and fs.mtime_us(path) != old_us:
                    problems.append(("mtime", f"{phase} {kind}: the modified time changed although the previous value "
                                              f"is still in place"))
            elif cur == new and cur != old:
                state["seen_new"] = True
        fs.plan = plan
        fs.observer = observe
        fs.opno = 0
        fs.fired = None
        fs.ops = []
        reads = []
        readers = 0
        if made.kind != "mounted" and new is not None and g.bool(0.25):
            readers = g.int(1, 2)

        def main():
            import threading
            ts = []

            def reader():
                for _ in range(2):
                    try:
                        reads.append(("value", store.read(), store.get_modified_time()))
                    except FileNotFoundError:
                        reads.append(("missing", None, None))
                    except OSError as e:
                        reads.append(("oserror", e, None))
                    except Exception as e:
                        reads.append(("error", e, None))
            for _ in range(readers):
                t = threading.Thread(target=reader)
                ts.append(t)
                t.start()
            try:
                store.write(value)
            finally:
                for t in ts:
                    t.join()
        sim = ctx.new_sim(start_us=max(fs.last_stamp, kernel.EPOCH_US) + 1000)
        sim, out = ctx.run(main, sim=sim)
        fs.plan = fs.observer = None
        fired = fs.fired
        fs.short = None
        dead = fs.dead
        if fired:
            ctx.fault({"err": "io_error", "torn": "torn_write", "short": "short_write", "die-before": "process_death",
                       "die-after": "process_death", "err-after": "io_error"}[fired[3][0]])
        if bad:
            ctx.fault("serialisation_error")
        fs.dead = False
        fs.silent += 1
        try:
            verify(ctx, fs, made, store, path, root, target, siblings, before, old, new, old_us, out, dead, fired, bad,
                   problems, value)
            check_reads(ctx, made, reads, has_old, old_value, expect, new, fs, dead)
            cur = fs.bytes(path)
            if cur == new and new is not None:
                old_value, has_old = expect, True
            old = cur
            if last:
                if out.status != "returned":
                    ctx.fail("blocked", f"a clean write after the faults raised {out.exc!r}")
            if has_old:
                check_read(ctx, made, store, old_value)
        finally:
            fs.silent -= 1
        ctx.distinct("fault_sites", (made.kind, what, kinds[fired[0]] if fired and fired[0] < len(kinds) else None,
                                     fired and fired[0]))


def desc(b):
    return "nothing" if b is None else f"{len(b)} bytes ({b[:12]!r}...)"


def draw_fault(ctx, kinds):
    g = ctx.gen
    k = g.int(0, len(kinds) - 1)
    kind = kinds[k]
    options = [("die-before",), ("die-after",)]
    if kind not in ("remove", "rmdir", "mkdir", "read", "chmod"):
        errs = fsim.errnos_for(kind)
        e = g.choice(errs)
        options = [("err", e), ("err", e), ("die-before",), ("die-after",)]
        if kind == "write":
            options += [("torn", g.choice([1, 10, 5000]), e), ("short", g.choice([1, 7, 5000]))]
        if kind == "open-r":
            options = [("err", e), ("die-before",)]
    act = g.choice(options)

    def plan(no, op, rel):
        return act if no == k else None
    return plan, f"{act} at operation {k} ({kind})"


def verify(ctx, fs, made, store, path, root, target, siblings, before, old, new, old_us, out, dead, fired, bad,
           problems, value):
    if problems:
        ctx.fail(*problems[0])
    if out.status == "deadlock" or out.status == "steps":
        raise fw.HarnessError(f"hang: {out.detail}")
    cur = fs.bytes(path)
    if cur != old and (new is None or cur != new):
        ctx.fail("mixed", f"after the write {out.status} the target holds {desc(cur)}; the previous value is {desc(old)}, "
                          f"the new one {desc(new)}")
    if cur == old and cur != new and cur is not None and fs.mtime_us(path) != old_us:
        ctx.fail("mtime", f"after the write {out.status} the modified time changed although the previous value is still "
                          f"in place")
    listing = fs.listing(os.path.relpath(root, fs.root))
    for name, data in siblings.items():
        if listing.get(name) != data:
            ctx.fail("sibling", f"the unrelated file {name!r} was changed")
    if out.status == "returned":
        if bad and new is None:
            ctx.fail("accepted", f"writing an unserialisable value succeeded")
        if cur != new:
            ctx.fail("not-written", f"the write returned normally but the target holds {desc(cur)}, not the new value")
    extra = set(listing) - set(siblings) - {target}
    if not dead:
        # an older leftover counts only if this write used it as its own staging file
        opened = {r for i, (k, r) in enumerate(fs.ops) if k.startswith(("open-w", "open-x"))
                  and not (fired is not None and fired[0] == i and fired[3][0] == "err")}
        base = os.path.relpath(root, fs.root)
        extra = {x for x in extra if x not in before or os.path.join(base, x) in opened}
        if extra and out.status == "returned":
            ctx.fail("left-behind", f"files {sorted(extra)} are left behind by a successful write")
        if extra and out.status == "raised":
            ctx.fail("staging-left", f"the write failed by {type(out.exc).__name__} and left {sorted(extra)} behind "
                                     f"(fault: {fired})")
    if out.status == "raised" and not fired and not bad:
        ctx.fail("raised", f"a write without any fault raised {out.exc!r}")


def check_read(ctx, made, store, value):
    from sim import values
    try:
        got = store.read()
    except Exception as e:
        ctx.fail("unreadable", f"reading the value in place raised {e!r}")
    if not values.equal(value, got):
        ctx.fail("wrong-value", f"read returned {got!r:.100} instead of {value!r:.100}")


def check_reads(ctx, made, reads, has_old, old_value, value, new, fs, dead):
    from sim import values
    if dead:
        return
    for kind, got, mt in reads:
        ctx.count("concurrent_reads")
        if kind == "missing":
            if has_old:
                ctx.fail("reader-missing", "a concurrent reader found no file although a previous value was in place")
        elif kind == "error":
            ctx.fail("reader-torn", f"a concurrent reader failed: {got!r}")
        elif kind == "value":
            ok = values.equal(value, got) or has_old and values.equal(old_value, got)
            if not ok:
                ctx.fail("reader-torn", f"a concurrent reader received {got!r:.100}")
