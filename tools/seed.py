"""Plant bugs: `seed.py make FILE.py ...` writes seeded/<id>/ from SEEDS in FILE; `seed.py try ID...` applies each to a
scratch copy of /repo, and runs its demonstration (both ways) and the property's check; `seed.py tests ID...` runs the
stable tests with each patch.  Scratch copies live under /tmp/seed and are removed."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SEED_REPO", "/repo")
PY = "/opt/venv/bin/python"
DEMO = """#!/bin/bash
# cwd: the repository
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 NUMBA_DISABLE_JIT={nojit} FMK_CONSOLE_LOGGER_LEVEL=CRITICAL PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def copy():
    d = tempfile.mkdtemp(prefix="seed")
    r = os.path.join(d, "repo")
    subprocess.run(["cp", "-a", REPO, r], check=True)
    subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
    return d, r


def make(mods):
    for m in mods:
        ns = {}
        exec(open(m).read(), ns)
        for s in ns["SEEDS"]:
            d, r = copy()
            for f, old, new in s["edits"]:
                p = os.path.join(r, f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(s["id"], "OLD FOUND", t.count(old), "times in", f)
                    break
                open(p, "w").write(t.replace(old, new))
            else:
                out = os.path.join(V, "seeded", s["id"])
                os.makedirs(out, exist_ok=True)
                diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout
                open(os.path.join(out, "patch.diff"), "w").write(diff)
                open(os.path.join(out, "demo.sh"), "w").write(DEMO.format(nojit=0 if s.get("jit") else 1))
                os.chmod(os.path.join(out, "demo.sh"), 0o755)
                open(os.path.join(out, "demo.py"), "w").write(s["demo"].lstrip("\n"))
                json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]),
                          open(os.path.join(out, "meta.json"), "w"), indent=1)
            shutil.rmtree(d)


def check_of(pid):
    m = json.load(open(os.path.join(V, "MANIFEST.json")))
    for c in m["checks"]:
        if c["property"] == pid:
            return c["quick_cmd"]
    raise KeyError(pid)


def demo(sid, r):
    return subprocess.run(["bash", os.path.join(V, "seeded", sid, "demo.sh")], cwd=r, capture_output=True, text=True)


def trial(ids):
    res = {}
    for sid in ids:
        meta = json.load(open(os.path.join(V, "seeded", sid, "meta.json")))
        d, r = copy()
        a = demo(sid, r)
        p = subprocess.run(["git", "-C", r, "apply", os.path.join(V, "seeded", sid, "patch.diff")], capture_output=True, text=True)
        b = demo(sid, r)
        line = f"{sid} {meta['property']} clean={a.returncode} patched={b.returncode}"
        if p.returncode:
            line += " PATCH FAILS " + p.stderr[:200]
        if a.returncode:
            line += " CLEAN DEMO: " + a.stderr[-400:]
        if not b.returncode:
            line += " PATCHED DEMO PASSES"
        if "--nocheck" not in sys.argv:
            e = dict(os.environ, FMK_REPO=r, VERIF_SEED="1", VERIF_TIER="quick")
            c = subprocess.run(check_of(meta["property"]), shell=True, cwd=V, env=e, capture_output=True, text=True)
            line += f" check={c.returncode} " + (c.stdout.strip().splitlines() or [""])[0][:160] + (c.stderr[-300:] if c.returncode not in (0, 1) else "")
        print(line, flush=True)
        shutil.rmtree(d)


TEST = r'''
cd "$1"; rep="$1/../rep"; mkdir -p "$rep"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$1"
c="/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2"
NUMBA_DISABLE_JIT=1 $c -n 8 --junitxml="$rep/nojit.xml" tests > "$rep/nojit.log" 2>&1
export NUMBA_NUM_THREADS=2
f() { local n=${2//\//_}; $1 --junit-prefix=jit --junitxml="$rep/jit-${n%.py}.xml" "$2" > "$rep/$n.log" 2>&1; }
export -f f; export rep
find tests -name 'test_*.py' -print0 | sort -z | xargs -0 -P 8 -I{} bash -c 'f "$0" "$1"' "$c" {}
/opt/venv/bin/python /opt/vp/results.py "$rep/out.json" "junit:$rep/*.xml" >/dev/null 2>&1
'''


def tests(ids):
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base["stable"])
    groups = [ids] if "--together" in sys.argv else [[i] for i in ids]
    for g in groups:
        d, r = copy()
        for sid in g:
            p = subprocess.run(["git", "-C", r, "apply", os.path.join(V, "seeded", sid, "patch.diff")])
            if p.returncode:
                print("cannot apply", sid)
        subprocess.run(["bash", "-c", TEST, "x", r])
        o = json.load(open(os.path.join(d, "rep", "out.json")))
        miss = sorted(stable - set(o["passed"]))
        print(" ".join(g), "tests lost:", len(miss), miss[:6], flush=True)
        shutil.rmtree(d)


if __name__ == "__main__":
    a = [x for x in sys.argv[2:] if not x.startswith("--")]
    {"make": make, "try": trial, "tests": tests}[sys.argv[1]](a)
