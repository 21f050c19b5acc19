"""Development aid: which mutants of genmut.py survive the project's tests, and which of those no check kills.

runmut.py tests  MUTS OUT WORKERS     -> JSON lines of mutants that pass the tests
runmut.py checks SURV OUT WORKERS [CASES_FACTOR] -> JSON lines with the check that killed each, or null
"""
import json
import multiprocessing as mp
import os
import pathlib
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = pathlib.Path(os.environ.get("MUT_SCRATCH", "/tmp/mut"))
PROPS = [f"C{i:02}" for i in range(1, 21)]
FIRST = [("progress/", ["C20", "C15"]), ("stores/", ["C11", "C12", "C13"]), ("caching", ["C08", "C05", "C03", "C18", "C09"]),
         ("run_function_on_graph", ["C07", "C04", "C06", "C17"]), ("run_physical", ["C06", "C15", "C16", "C07"]),
         ("_plan", ["C02", "C13", "C19"]), ("graph", ["C02", "C19"]), ("traceback", ["C19"]), ("retry", ["C10"]),
         ("_run.py", ["C14", "C13", "C07"])]


def slot(n):
    d = SCRATCH / str(n)
    if not d.exists():
        d.mkdir(parents=True)
        for x in ("src", "tests", "pyproject.toml"):
            s = pathlib.Path("/repo", x)
            (shutil.copytree if s.is_dir() else shutil.copy)(s, d / x)
    return d


def mutate(d, m):
    f = d / "src" / "uberjob" / m["file"]
    raw = pathlib.Path("/repo/src/uberjob", m["file"]).read_bytes()
    f.write_bytes(raw[:m["start"]] + m["new"].encode() + raw[m["end"]:])
    return f, raw


def tests(d):
    env = dict(os.environ, PYTHONPATH=str(d / "src"), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    try:
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=8",
                            "--disable-warnings"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=25)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0


def checks(d, m, factor):
    order = []
    for k, ps in FIRST:
        if k in m["file"]:
            order += [p for p in ps if p not in order]
    order += [p for p in PROPS if p not in order]
    odd, nfirst = [], sum(1 for k, ps in FIRST if k in m["file"] for _ in ps)
    for i, p in enumerate(m.get("only") or order):
        quick = int(next(l for l in open(f"{V}/sim/props/{p.lower()}.py") if l.startswith("QUICK")).split("=")[1])
        env = dict(os.environ, SIM_SRC=str(d / "src"))
        try:
            r = subprocess.run([f"{V}/bin/check", p, "--no-evidence", "--workers", "1", "--cases", str(int(quick * factor * (1 if m.get("only") or i < nfirst else 0.4))), "--wall", "120"],
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
        except subprocess.TimeoutExpired:
            odd.append((p, "timeout"))
            continue
        out = r.stdout.decode(errors="replace")
        if r.returncode == 1 and f"VIOLATION property={p}" in out:
            line = [x for x in out.splitlines() if x.strip()]
            i = next(i for i, x in enumerate(line) if x.startswith("VIOLATION"))
            return p, line[i - 1][:200], odd
        if r.returncode != 0:
            odd.append((p, r.returncode, out[-300:]))
    return None, None, odd


def work(args):
    mode, m, factor = args
    d = slot(mp.current_process()._identity[0])
    f, raw = mutate(d, m)
    try:
        if mode == "tests":
            return m if tests(d) else None
        p, msg, odd = checks(d, m, factor)
        return dict(m, killed=p, msg=msg, odd=odd)
    finally:
        f.write_bytes(raw)


def main():
    mode, src, out, n = sys.argv[1:5]
    factor = float(sys.argv[5]) if len(sys.argv) > 5 else 0.08
    todo = [json.loads(l) for l in open(src)]
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["id"] for l in open(out)}
    todo = [m for m in todo if m["id"] not in done]
    shutil.rmtree(SCRATCH, ignore_errors=True)
    with mp.Pool(int(n)) as pool, open(out, "a") as o:
        for i, r in enumerate(pool.imap_unordered(work, [(mode, m, factor) for m in todo])):
            if r is not None:
                o.write(json.dumps(r) + "\n")
                o.flush()


main()
