"""Development aid: make and confirm planted bugs under /verif/seeded (never run by a check).

A definition file calls bug(id, prop, edits, needs, breaks, demo); then: plant.py DEFS [ID...]
"""
import concurrent.futures as cf
import json
import os
import pathlib
import shutil
import subprocess
import sys
import textwrap

V = pathlib.Path(__file__).resolve().parent.parent
BUGS = {}


def bug(id, prop, edits, needs, breaks, demo):
    BUGS[id] = (prop, edits, needs, breaks, textwrap.dedent(demo).lstrip())


def sh(cmd, timeout=300, **kw):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout", ""


def copy(to):
    shutil.rmtree(to, ignore_errors=True)
    shutil.copytree("/repo", to, symlinks=True)


def tests(d):
    env = dict(os.environ, PYTHONPATH=f"{d}/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    return sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60", "--disable-warnings"],
              cwd=d, env=env, timeout=200)


def original_lines(d, file, start, count):
    """Do the lines [start, start+count) of the unpatched file stem from the base commit?"""
    base = sh(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"])[1].strip()
    if not count:
        return True
    out = sh(["git", "-C", "/repo", "blame", "-s", "-l", "--root", "-L", f"{start},+{count}", "HEAD", "--", file])[1]
    return all(line.lstrip("^").startswith(base[:30]) for line in out.splitlines() if line)


def plant(id):
    prop, edits, needs, breaks, demo = BUGS[id]
    d = pathlib.Path("/tmp/pl") / id
    copy(d)
    for file, old, new in edits:
        f = d / "src/uberjob" / file
        s = f.read_text()
        if s.count(old) != 1:
            return id, f"edit of {file} matches {s.count(old)} times"
        f.write_text(s.replace(old, new))
    diff = sh(["git", "-C", str(d), "diff"])[1]
    notes = []
    import re
    cur = None
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            cur = line[6:]
    # changed original lines
    z = sh(["git", "-C", str(d), "diff", "-U0"])[1]
    touched = []
    for line in z.splitlines():
        if line.startswith("--- a/"):
            cur = line[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
        if m:
            touched.append((cur, int(m[1]), int(m[2] or 1)))
    if not any(c and original_lines(d, f, s, c) for f, s, c in touched):
        notes.append("NO ORIGINAL LINES REMOVED")
    if any(c and not original_lines(d, f, s, c) for f, s, c in touched):
        notes.append("touches lines of fix commits")
    out = V / "seeded" / id
    out.mkdir(parents=True, exist_ok=True)
    (out / "patch.diff").write_text(diff)
    (out / "demo.py").write_text(demo)
    (out / "demo.sh").write_text('#!/bin/bash\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1\n'
                                 'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(out / "demo.sh", 0o755)
    (out / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    tmp = f"/tmp/pl/{id}.demo"
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(out, tmp)
    ok = [sh(["bash", f"{tmp}/demo.sh"], cwd="/repo", timeout=100) for _ in range(2)]
    bad = [sh(["bash", f"{tmp}/demo.sh"], cwd=d, timeout=100) for _ in range(2)]
    shutil.rmtree(tmp)
    if any(r[0] != 0 for r in ok):
        return id, f"demo fails on the clean tree: {[r for r in ok if r[0] != 0][0][1][-600:]}", notes
    if any(r[0] == 0 for r in bad):
        return id, f"demo passes with the bug ({[r[0] for r in bad]})", notes
    if any(r[0] == "timeout" for r in bad):
        notes.append("demo hangs with the bug")
    t = tests(d)
    if t[0] != 0:
        return id, "tests fail: " + " ".join(x for x in t[1].splitlines() if x.startswith("FAILED"))[:300], notes
    notes.append(bad[0][1].strip().splitlines()[-1][:120] if bad[0][1].strip() else "")
    return id, "ok", notes


def check(id, props=None):
    prop = BUGS[id][0] if id in BUGS else json.loads((V / "seeded" / id / "meta.json").read_text())["property"]
    d = pathlib.Path("/tmp/pl") / id
    res = []
    for p in props or [prop]:
        env = dict(os.environ, SIM_SRC=str(d / "src"))
        rc, out = sh([f"{V}/bin/check", p, "--no-evidence", "--workers", "4"], env=env, timeout=900)
        v = [x for x in out.splitlines() if x.strip()]
        msg = ""
        if rc == 1:
            i = [i for i, x in enumerate(v) if x.startswith("VIOLATION")]
            msg = v[i[0] - 1] if i else out[-200:]
        elif rc != 0:
            msg = out[-400:]
        res.append((p, rc, msg[:160]))
    return res


def main():
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"), {"bug": bug})
    ids = sys.argv[2:] or list(BUGS)
    with cf.ThreadPoolExecutor(4) as ex:
        good = []
        for r in ex.map(plant, ids):
            print(*r, flush=True)
            if r[1] == "ok":
                good.append(r[0])
            else:
                shutil.rmtree(V / "seeded" / r[0], ignore_errors=True)
    with cf.ThreadPoolExecutor(2) as ex:
        for id, r in zip(good, ex.map(check, good)):
            print("CHECK", id, *r, flush=True)
    for id in ids:
        shutil.rmtree(f"/tmp/pl/{id}", ignore_errors=True)


if __name__ == "__main__":
    main()
