"""Cases, contexts, the parallel runner, minimisation, replay and evidence."""
import argparse
import collections
import contextlib
import functools
import gc
import hashlib
import importlib
import json
import mmap
import os
import pickle
import re
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

from sim import fsim, kernel
from sim.choices import Gen, Stream, minimise

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/uberjob"
real_now = kernel._real_monotonic
CAP = 300_000  # distinct-set cap per worker


class Violation(Exception):
    def __init__(self, key, message):
        super().__init__(message)
        self.key = key
        self.message = message


class HarnessError(Exception):
    pass


class Abandoned(Exception):
    """The case ran out of its step bound for a reason that says nothing about the property."""


def H(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


class Stats:
    def __init__(self):
        self.n = collections.Counter()
        self.faults = collections.Counter()
        self.sets = collections.defaultdict(set)
        self.sim_us = 0
        self.samples = []
        self.slowest = (0.0, None)

    def merge(self, o):
        self.n.update(o.n)
        self.faults.update(o.faults)
        for k, v in o.sets.items():
            self.sets[k] |= v
        self.sim_us += o.sim_us
        self.samples.extend(o.samples)
        self.slowest = max(self.slowest, o.slowest, key=lambda x: x[0])


class Ctx:
    """Everything one case uses. All decisions come from `gen` (workload, faults) and `sched` (schedule)."""

    def __init__(self, prop, gen, sched, stats=None, index=None):
        self.prop = prop
        self.gen = gen
        self.sched = sched
        self.stats = stats or Stats()
        self.index = index
        self.sha = hashlib.sha256()
        self.notes = []
        self.last_log = None
        self.nontrivial = False
        self.scratch = None
        self.policy = None
        self.rng_seed = gen.decide(1 << 20)
        kernel.NodeHash.reset(gen.decide(1 << 16))
        self.max_icount = 6_000_000
        self.long = False   # steps last so long that waking up regularly alone can exceed the bounds

    # -- bookkeeping
    def count(self, name, k=1):
        self.stats.n[name] += k

    def fault(self, kind, k=1):
        self.stats.faults[kind] += k
        self.nontrivial = True

    def distinct(self, name, value):
        s = self.stats.sets[name]
        if len(s) < CAP:
            s.add(value if type(value) is int else H(value) & 0xFFFFFFFFFFFF)

    def note(self, *a):
        """Goes to the replay file and the digest."""
        self.notes.append(" ".join(str(x) for x in a))

    def fail(self, key, message):
        raise Violation(key, message)

    def check(self, cond, key, message):
        if not cond:
            raise Violation(key, message() if callable(message) else message)

    # -- simulated runs
    def draw_policy(self, op=True, modes=None):
        g = self.gen
        mode = g.weighted(modes or [("seq", 1), ("random", 8), ("pct", 3), ("rr", 1), ("lifo", 2)])
        p = g.weighted([(0.3, 3), (0.05, 2), (0.6, 2), (0.95, 2)]) if mode in ("random", "lifo") else 0.3
        op_gap = g.weighted([(0, 5), (100, 2), (25, 2), (6, 1)]) if op and mode in ("random", "lifo", "pct") else 0
        depth = g.int(1, 8) if mode == "pct" else 3
        return kernel.Policy(mode, p, op_gap, depth)

    def new_sim(self, policy=None, **kw):
        if policy is None:
            if self.policy is None:
                self.policy = self.draw_policy()
            policy = self.policy
        sim = kernel.Sim(self.sched, policy, rng_seed=self.rng_seed, **kw)
        sim.max_icount = self.max_icount
        self.rng_seed += 1
        return sim

    def run(self, fn, sim=None, **kw):
        sim = sim or self.new_sim(**kw)
        out = sim.run(fn)
        self.last_log = sim.log
        self.account(sim, out)
        return sim, out

    def account(self, sim, out):
        st = self.stats
        st.n["sim_runs"] += 1
        st.n["sched_points"] += sim.steps
        st.n["switches"] += sim.switches
        st.n["preemptions"] += sim.preemptions
        st.n["bytecode_preemption_runs"] += 1 if sim.policy.op_gap else 0
        st.n["status:" + out.status] += 1
        st.sim_us += out.sim_us
        log = repr(sim.log)
        self.sha.update(log.encode("utf-8", "backslashreplace"))
        self.sha.update(f"{out.status}{sim.switches}".encode())
        self.distinct("interleavings", sim.trace_hash)
        self.distinct("histories", log)
        if sim.switches > 2:
            self.nontrivial = True
        if sim.leaked:
            st.n["leaked"] += 1
        if out.status == "steps" and self.long:
            raise Abandoned

    def tmpdir(self):
        if self.scratch is None:
            self.scratch = tempfile.mkdtemp(prefix="case-", dir=SCRATCH)
        return self.scratch

    def files(self):
        """The simulated file system below a fresh scratch directory."""
        fsim.F.fs = fsim.FS(self.tmpdir())
        tempfile._name_sequence = (f"t{i}" for i in range(10 ** 9))
        return fsim.F.fs

    def close(self):
        fsim.F.fs = None
        if self.scratch is not None:
            os.chdir("/")
            tempfile.tempdir = None
            shutil.rmtree(self.scratch, ignore_errors=True)
            self.scratch = None


SCRATCH = None


def load(prop):
    return importlib.import_module("sim.props." + prop.lower())


class CaseResult:
    __slots__ = ("violation", "error", "gen", "sched", "digest", "notes", "nontrivial")


def public_name(e):
    """Does the exception say that a public function of uberjob refuses the arguments it was given?"""
    m = re.match(r"(\w+(?:\.\w+)*)\(\) (?:got|missing|takes)", str(e)) if type(e) is TypeError else None
    if not m or any(x.startswith("_") for x in m.group(1).split(".")):
        return False
    import uberjob
    return any(functools.reduce(lambda o, x: getattr(o, x, None), m.group(1).split("."), space) is not None
               for space in (uberjob, uberjob.stores, uberjob.progress, uberjob.graph))


def run_case(mod, gen, sched, stats, index=None):
    ctx = Ctx(mod.PROP, gen, sched, stats, index)
    res = CaseResult()
    res.violation = res.error = None
    try:
        mod.case(ctx)
    except Violation as v:
        res.violation = (v.key, v.message)
    except Abandoned:
        ctx.count("abandoned_long")
    except kernel.SimKilled:
        res.error = "SimKilled escaped\n" + traceback.format_exc()
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        uj = [f for f in tb if f.filename.startswith(SRC)]
        if not uj and public_name(e):
            res.violation = (f"exception:{type(e).__name__}", f"legal use of the API raised {type(e).__name__}: {e}")
            ctx.note(traceback.format_exc())
        elif uj:
            f = uj[-1]
            res.violation = (f"exception:{type(e).__name__}",
                             f"legal use of the API raised {type(e).__name__}: {e} "
                             f"(in {f.name})")
            ctx.note(traceback.format_exc())
        else:
            res.error = traceback.format_exc()
    finally:
        ctx.close()
        kernel.S.sim = None
    res.gen = gen.out
    res.sched = sched.out
    res.digest = ctx.sha.hexdigest()[:24]
    res.notes = ctx.notes
    res.nontrivial = ctx.nontrivial
    if res.violation and ctx.last_log is not None:
        res.notes = res.notes + ["log:"] + [repr(e) for e in ctx.last_log[-400:]]
    st = ctx.stats
    st.n["cases"] += 1
    if res.nontrivial:
        d = H(res.digest, tuple(ctx.notes[:3])) & 0xFFFFFFFFFFFF
        ctx.distinct("nontrivial", d)
    if stats is not None and len(stats.samples) < 2 and index is not None and not res.violation:
        stats.samples.append({
            "case": index,
            "policy": repr(ctx.policy),
            "workload_choices": res.gen[:40],
            "schedule_choices": len(res.sched),
            "notes": [n[:300] for n in ctx.notes[:6]],
            "history": [repr(e) for e in (ctx.last_log or [])[:25]],
        })
    return res


def streams(prop, seed, index):
    return Gen(H(seed, prop, index, "gen")), Stream(H(seed, prop, index, "sched"))


# ------------------------------------------------------------------ workers

def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<Q", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def worker_main(mod, seed, start, stride, total, fd, hb, slot, max_cases, deadline):
    stats = Stats()
    i = start
    done = 0
    gc.freeze()
    try:
        while i < total and done < max_cases and real_now() < deadline:
            hb[slot * 16:slot * 16 + 16] = struct.pack("<qd", i, real_now())
            gen, sched = streams(mod.PROP, seed, i)
            began = real_now()
            res = run_case(mod, gen, sched, stats, i)
            stats.slowest = max(stats.slowest, (real_now() - began, i), key=lambda x: x[0])
            done += 1
            if res.violation or res.error:
                _send(fd, ("found", i, res.violation, res.error, res.gen, res.sched, res.digest, res.notes))
            i += stride
            if stats.n["leaked"] or _threads() > 40:
                break
        hb[slot * 16:slot * 16 + 16] = struct.pack("<qd", -1, real_now())
        _send(fd, ("stats", i, stats))
    except BaseException:
        try:
            _send(fd, ("crash", i, traceback.format_exc()))
        finally:
            os._exit(3)
    os._exit(0)


def _threads():
    import _thread
    return _thread._count()


class Runner:
    def __init__(self, mod, seed, total, workers, wall, chunk=1500, stall=90.0, max_found=4):
        self.mod = mod
        self.seed = seed
        self.total = total
        self.workers = workers
        self.wall = wall
        self.chunk = chunk
        self.stall = stall
        self.stats = Stats()
        self.found = []
        self.errors = []
        self.stalled = []
        self.timed_out = False
        self.max_found = max_found

    def spawn(self, slot, start):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.hb[slot * 16:slot * 16 + 16] = struct.pack("<qd", start, real_now())
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                worker_main(self.mod, self.seed, start, self.workers, self.total, w, self.hb, slot, self.chunk,
                            self.deadline)
            finally:
                os._exit(4)
        os.close(w)
        self.live[r] = [slot, pid, b"", start]

    def go(self):
        self.hb = mmap.mmap(-1, 16 * self.workers)
        self.live = {}
        self.deadline = real_now() + self.wall
        for s in range(min(self.workers, self.total)):
            self.spawn(s, s)
        while self.live:
            rs, _, _ = select.select(list(self.live), [], [], 1.0)
            for fd in rs:
                data = os.read(fd, 1 << 20)
                ent = self.live[fd]
                if data:
                    ent[2] += data
                    self._parse(fd)
                else:
                    self._closed(fd)
            now = real_now()
            for fd, ent in list(self.live.items()):
                idx, t = struct.unpack("<qd", self.hb[ent[0] * 16:ent[0] * 16 + 16])
                if idx >= 0 and now - t > self.stall:
                    os.kill(ent[1], signal.SIGKILL)
                    self.stalled.append(idx)
                    ent[3] = None
                    hb = ent[0]
                    self.hb[hb * 16:hb * 16 + 16] = struct.pack("<qd", -1, now)
                    ent.append(idx + self.workers)
            if len(self.found) >= self.max_found or len(self.errors) >= 60 or len(self.stalled) >= 3:
                for fd, ent in list(self.live.items()):
                    try:
                        os.kill(ent[1], signal.SIGKILL)
                    except OSError:
                        pass
                    os.close(fd)
                    os.waitpid(ent[1], 0)
                    del self.live[fd]
        return self

    def _parse(self, fd):
        ent = self.live[fd]
        while len(ent[2]) >= 8:
            n = struct.unpack("<Q", ent[2][:8])[0]
            if len(ent[2]) < 8 + n:
                return
            msg = pickle.loads(ent[2][8:8 + n])
            ent[2] = ent[2][8 + n:]
            if msg[0] == "found":
                (self.found if msg[2] else self.errors).append(msg[1:])
            elif msg[0] == "stats":
                ent[3] = msg[1]
                self.stats.merge(msg[2])
                ent.append(msg[1])
            else:
                self.errors.append((msg[1], None, msg[2], [], [], "", []))

    def _closed(self, fd):
        ent = self.live.pop(fd)
        os.close(fd)
        os.waitpid(ent[1], 0)
        nxt = ent[4] if len(ent) > 4 else None
        if nxt is None:
            idx, _ = struct.unpack("<qd", self.hb[ent[0] * 16:ent[0] * 16 + 16])
            self.errors.append((idx, None, "worker died", [], [], "", []))
            return
        if nxt < self.total:
            if real_now() < self.deadline:
                self.spawn(ent[0], nxt)
            else:
                self.timed_out = True


def in_child(fn, timeout):
    """Run fn() in a forked child; its picklable result, or None on timeout/death."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            _send(w, fn())
            os._exit(0)
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(5)
    os.close(w)
    buf = b""
    end = real_now() + timeout
    ok = True
    while True:
        left = end - real_now()
        if left <= 0:
            ok = False
            break
        rs, _, _ = select.select([r], [], [], left)
        if not rs:
            ok = False
            break
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf += d
    os.close(r)
    if not ok:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    if ok and len(buf) >= 8:
        return pickle.loads(buf[8:])
    return None


def replay_lists(mod, lists):
    res = run_case(mod, Gen(replay=lists[0]), Stream(replay=lists[1]), None)
    return res


def do_minimise(mod, lists, key, seconds):
    end = real_now() + seconds
    tries = 0

    def still(trial):
        nonlocal tries
        tries += 1
        try:
            res = replay_lists(mod, trial)
        except Exception:
            return False
        return res.violation is not None and res.violation[0] == key

    out = minimise(lists, still, lambda: real_now() < end and _threads() < 200)
    return out, tries


def report(mod, seed, tier, found, min_seconds, outdir):
    index, violation, _, gen, sched, digest, notes = found
    key, message = violation
    lists = [gen, sched]
    got = in_child(lambda: do_minimise(mod, lists, key, min_seconds), min_seconds + 60)
    tries = 0
    best = None
    if got is not None:
        mini, tries = got

        def fresh(c):
            def go():
                r = replay_lists(mod, c)
                return r.violation, r.digest, r.notes, r.gen, r.sched
            return in_child(go, 60)
        r = fresh(mini)
        if r and r[0] and r[0][0] == key:
            best = (mini, r)
    if best is None:
        best = (lists, (violation, digest, notes, gen, sched))
    mini, (viol, dig, nts, _, _) = best
    os.makedirs(outdir, exist_ok=True)
    path = os.path.join(outdir, f"{mod.PROP}-{H(key) % 0xFFFFFF:06x}-{index}.json")
    with open(path, "w") as f:
        json.dump({
            "property": mod.PROP, "seed": seed, "tier": tier, "index": index, "key": viol[0], "message": viol[1],
            "gen": mini[0], "sched": mini[1], "digest": dig,
            "original_lengths": [len(gen), len(sched)], "minimisation_tries": tries,
            "replay_cmd": f"bin/check {mod.PROP} --replay {path}",
            "trace": nts,
        }, f, indent=1)
    return path, viol


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    with open(p) as f:
        return json.load(f)


def main(argv):
    global SCRATCH
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count_real()))
    ap.add_argument("--wall", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--one", type=int)
    ap.add_argument("--digests", type=int, help="print digests of the first N cases (determinism test)")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--out", default=os.path.join(HERE, "out"))
    a = ap.parse_args(argv)
    mod = load(a.prop)
    with contextlib.ExitStack() as stack:
        shm = "/dev/shm"
        SCRATCH = tempfile.mkdtemp(prefix="ujsim-", dir=shm if os.access(shm, os.W_OK | os.X_OK) else None)
        stack.callback(shutil.rmtree, SCRATCH, True)
        if hasattr(mod, "setup"):
            mod.setup()
        if a.replay:
            return main_replay(mod, a)
        if a.one is not None:
            return main_one(mod, a)
        if a.digests:
            for i in range(a.digests):
                gen, sched = streams(mod.PROP, a.seed, i)
                res = run_case(mod, gen, sched, None, i)
                print(i, res.digest, H(res.gen, res.sched), res.violation, res.error)
            return 0
        return main_search(mod, a)


def main_replay(mod, a):
    with open(a.replay) as f:
        d = json.load(f)
    res = replay_lists(mod, [d["gen"], d["sched"]])
    for n in res.notes:
        print(n)
    if res.error:
        print(res.error)
        return 2
    if not res.violation:
        print("not reproduced: the property held on this execution")
        return 0
    same = res.digest == d["digest"] and res.violation == (d["key"], d["message"])
    print(f"reproduced {'exactly' if same else 'with a different history'}: {res.violation[1]}")
    print(f"VIOLATION property={mod.PROP} replay={a.replay}")
    return 1


def main_one(mod, a):
    gen, sched = streams(mod.PROP, a.seed, a.one)
    stats = Stats()
    res = run_case(mod, gen, sched, stats, None)
    for n in res.notes:
        print(n)
    print("violation:", res.violation)
    print("error:", res.error)
    print(dict(stats.n), dict(stats.faults))
    return 1 if res.violation else 2 if res.error else 0


def main_search(mod, a):
    t0 = real_now()
    tier = "thorough" if a.tier == "thorough" else "quick"
    total = a.cases or (mod.THOROUGH if tier == "thorough" else mod.QUICK)
    wall = a.wall or (10800.0 if tier == "thorough" else 420.0)
    r = Runner(mod, a.seed, total, a.workers, wall).go()
    search_s = real_now() - t0
    st = r.stats
    # stalled cases: real time ran out without a scheduling point
    for idx in r.stalled[:2]:
        # on a busy machine a large case may merely be slow: it gets one more, longer chance
        def again(idx=idx):
            gen, sched = streams(mod.PROP, a.seed, idx)
            res = run_case(mod, gen, sched, None, idx)
            return idx, res.violation, res.error, res.gen, res.sched, res.digest, res.notes
        res = in_child(again, 2 * r.stall)
        if res is None:
            r.errors.append((idx, None, f"case {idx} made no progress for {2 * r.stall:.0f} s of real time", [], [], "", []))
        elif res[1] or res[2]:
            (r.found if res[1] else r.errors).append(res)
        else:
            st.n["slow_cases"] += 1
    kf = [k for k in known_findings().get("findings", []) if k.get("property") == mod.PROP]
    known = {k["key"]: k for k in kf}
    fresh, seen_known = [], set()
    for f in sorted(r.found, key=lambda f: f[0]):
        if f[1][0] in known:
            seen_known.add(f[1][0])
        else:
            fresh.append(f)
    for k in kf:
        print(f"KNOWN-FINDING: property={mod.PROP} {k['what']}")
    code = 0
    lines = []
    done = set()
    for f in fresh:
        if f[1][0] in done or len(done) >= 2:
            continue
        done.add(f[1][0])
        path, viol = report(mod, a.seed, tier, f, 40.0 if tier == "quick" else 300.0, a.out)
        lines.append((path, viol))
        code = 1
    cases = st.n["cases"]
    if not code and r.errors:
        code = 2
    if not code and cases < min(total, max(50, total // 10)):
        r.errors.append((-1, None, f"only {cases} of {total} cases ran within {wall} s", [], [], "", []))
        code = 2
    for e in r.errors[:3]:
        print(f"ERROR case={e[0]}: {e[2]}", file=sys.stderr)
    wall_s = real_now() - t0
    if not a.no_evidence:
        write_evidence(mod, a.seed, tier, st, total, r, search_s, wall_s, len(fresh), code)
    n = st.n
    print(f"{mod.PROP} {tier}: {cases} cases, {n['sim_runs']} simulated runs, "
          f"{len(st.sets['interleavings'])} distinct interleavings, faults "
          f"{dict(sorted(st.faults.items()))}, sim time {st.sim_us / 1e6:.0f} s, wall {wall_s:.1f} s"
          + f" (slowest case {st.slowest[1]}: {st.slowest[0]:.1f} s)" + (" (wall cap reached)" if r.timed_out else ""))
    for path, viol in lines:
        print(viol[1])
        print(f"VIOLATION property={mod.PROP} replay={path}")
    return code


def write_evidence(mod, seed, tier, st, total, r, search_s, wall_s, violations, code):
    n = st.n
    hours = max(search_s, 1e-6) / 3600
    extra = {k: v for k, v in sorted(n.items()) if k not in (
        "cases", "sim_runs", "sched_points", "switches", "preemptions", "bytecode_preemption_runs")}
    ev = {
        "property": mod.PROP,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": n["sim_runs"] or n["cases"],
            "distinct_nontrivial": len(st.sets["nontrivial"]),
            "rule": mod.RULE + " A case is non-trivial when it had more than two thread switches or an injected fault; "
                    "distinct means a different digest of its complete event history.",
            "samples": st.samples[:3] or [{"note": "no case completed"}],
            "seeds": n["cases"],
            "seeds_requested": total,
            "wall_cap_reached": bool(r.timed_out),
            "runs_per_hour": int(n["sim_runs"] / hours),
            "seeds_per_hour": int(n["cases"] / hours),
            "simulated_seconds": round(st.sim_us / 1e6, 3),
            "faults_injected": dict(sorted(st.faults.items())),
            "distinct_interleavings": len(st.sets["interleavings"]),
            "distinct_histories": len(st.sets["histories"]),
            "distinct_measure": "interleavings: hash of the sequence of (task switched to, position in the event log); "
                                "histories: hash of the complete recorded event log",
            "distinct_other": {k: len(v) for k, v in sorted(st.sets.items())
                               if k not in ("nontrivial", "interleavings", "histories")},
            "scheduling_points": n["sched_points"],
            "thread_switches": n["switches"],
            "preemptions": n["preemptions"],
            "runs_with_bytecode_preemption": n["bytecode_preemption_runs"],
            "counters": extra,
            "components_real": mod.REAL,
            "components_stubbed": mod.STUB,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall_s, 2),
        "violations": violations,
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, mod.PROP + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


REAL_BASE = ["all of uberjob (compiled from /repo/src)", "networkx", "stdlib threading.Thread/Condition/Event/RLock, queue.Queue",
             "CPython interpreter (real OS threads, one runs at a time)"]
STUB_BASE = ["thread scheduler, lock primitive, thread start/exit sentinel", "time.time/monotonic/sleep (simulated clock)",
             "random module seeding", "call functions (recording functions of the workload)"]
