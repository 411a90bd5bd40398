"""Machinery shared by the checks: runs TLC on the specifications, runs the real code of /repo on the
behaviours, and turns a rejected trace into a VIOLATION line.  Runs under /opt/venv/bin/python."""
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FMK_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
# TLC exit statuses that mean "the specification rejects this state", not "the run failed"
REJECT = {10, 11, 12, 13, 75, 76, 77}


class Broken(Exception):
    """The machinery failed; not a verdict on the code."""


def build_java():
    """Compile the number overrides once (they do not depend on /repo)."""
    out = os.path.join(VERIF, "build")
    cls = os.path.join(out, "fmkspec", "Rat.class")
    src = os.path.join(VERIF, "java", "Rat.java")
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return out
    tmp = tempfile.mkdtemp(prefix="fmkjava")
    try:
        subprocess.run(["javac", "-cp", JARS, "-d", tmp, src], check=True, capture_output=True)
        os.makedirs(os.path.dirname(cls), exist_ok=True)
        for f in glob.glob(os.path.join(tmp, "fmkspec", "*.class")):
            shutil.copy(f, os.path.dirname(cls) + "/." + os.path.basename(f))
            os.replace(os.path.dirname(cls) + "/." + os.path.basename(f),
                       os.path.join(os.path.dirname(cls), os.path.basename(f)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def tlc(module, cfg_text, env=None, workers=8, timeout=800, heap="4g", extra=(), simulate=None):
    """Run TLC on specs/<module>.tla.  Returns dict(rc, out, docs, states, distinct, wall)."""
    build = build_java()
    tmp = tempfile.mkdtemp(prefix="fmktlc")
    t0 = time.time()
    try:
        cfg = os.path.join(tmp, module + ".cfg")
        with open(cfg, "w") as f:
            f.write(cfg_text)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC",
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:fmkspec.Rat",
               "-DTLA-Library=" + SPECS, "-cp", build + ":" + JARS, "tlc2.TLC",
               "-metadir", os.path.join(tmp, "meta"), "-noGenerateSpecTE",
               "-workers", str(workers), "-config", cfg]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += list(extra) + [os.path.join(SPECS, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=tmp, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            raise Broken(f"TLC on {module} did not finish in {timeout} s") from x
        docs = []
        for line in p.stdout.splitlines():
            if line.startswith('"@@') and line.endswith('"'):
                docs.append(json.loads(json.loads(line)[2:]))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
        cov = re.findall(r"^<(\w+) line .*>: (\d+):(\d+)", p.stdout, re.M)
        out = "\n".join(x for x in p.stdout.splitlines() if not x.startswith(
            ("Parsing file", "Semantic processing", "Linting of", '"@@', "Computed ", "TLC2 Version", "Running breadth")))
        return dict(rc=p.returncode, out=out, docs=docs, states=int(m[-1][0]) if m else 0,
                    distinct=int(m[-1][1]) if m else 0, wall=time.time() - t0,
                    coverage={a: int(b) for a, b, _ in cov})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- numbers

def num(x):
    """A Python/NumPy number as a number of Rat.tla (exact)."""
    if x is None:
        return "nan"
    if isinstance(x, str):
        return x
    if hasattr(x, "item"):
        x = x.item()
    if isinstance(x, bool):
        return "1" if x else "0"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, Fraction):
        return str(x)
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    n, d = x.as_integer_ratio()
    return str(n) if d == 1 else f"{n}/{d}"


def nums(xs):
    return [num(x) for x in xs]


def flt(s):
    """A number of Rat.tla as a float (exact for what num() wrote)."""
    if s in ("nan", "inf", "-inf"):
        return float(s)
    f = Fraction(s)
    return f.numerator / f.denominator


# ---------------------------------------------------------------- running the real code

def run_real(harness, cases, jit=False, timeout=600, procs=4):
    """Run harness/<harness>.py:run(case) on every case against /repo; returns the outputs in order.

    An output of {"exc": ...} is an exception of the code under test; {"exc": "timeout"} or {"exc": "crash"}
    that the process running it did not come back."""
    if not cases:
        return []
    tmp = tempfile.mkdtemp(prefix="fmkrun")
    try:
        procs = max(1, min(procs, len(cases)))
        jobs = []
        for k in range(procs):
            fin, fout = os.path.join(tmp, f"in{k}"), os.path.join(tmp, f"out{k}")
            with open(fin, "w") as f:
                for i in range(k, len(cases), procs):
                    f.write(json.dumps({"i": i, "case": cases[i]}) + "\n")
            env = dict(os.environ)
            env.pop("PYTHONPATH", None)
            env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", FMK_REPO=REPO, NUMBA_NUM_THREADS="2",
                       FMK_CONSOLE_LOGGER_LEVEL="CRITICAL", PYTHONWARNINGS="ignore", HOME=tmp,
                       OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TMPDIR=tmp, NUMBA_CACHE_DIR=tmp)
            env.pop("FMK_LOG_FILE_PATH", None)
            env["NUMBA_DISABLE_JIT"] = "0" if jit else "1"
            err = open(os.path.join(tmp, f"err{k}"), "w")
            jobs.append((subprocess.Popen([PY, os.path.join(VERIF, "lib", "worker.py"), harness, fin, fout], cwd=tmp,
                                          env=env, stdout=err, stderr=err), fout, k))
        outs = {}
        deadline = time.time() + timeout
        ends = {}
        for p, fout, k in jobs:
            try:
                p.wait(max(1, deadline - time.time()))
                ends[k] = "crash"
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                ends[k] = "timeout"
        for p, fout, k in jobs:
            if os.path.exists(fout):
                for line in open(fout):
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    outs[d["i"]] = d["out"]
            if p.returncode == 3:  # the harness itself failed
                raise Broken("harness " + harness + ": " + open(os.path.join(tmp, f"err{k}")).read()[-3000:])
        res = []
        for i in range(len(cases)):
            if i in outs:
                res.append(outs[i])
            else:
                res.append({"exc": ends[i % procs]})
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- a check

class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        self.quick = self.tier != "thorough"
        self.rng = random.Random(f"{pid}-{self.seed}")
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "runs_of_real_code": 0, "traces_validated_against_impl": 0, "parts": []}
        self.viol = []
        self.known = load_known(pid)
        self.known_hit = {}
        self.samples = {}
        self.seen_clauses = {}

    # -- design level
    def mc(self, module, cfg, name=None, timeout=800, must_cover=(), **kw):
        """Model-check a design configuration; the specification itself must satisfy its properties."""
        r = tlc(module, cfg, timeout=timeout, extra=("-coverage", "1"), **kw)
        if r["rc"] != 0:
            raise Broken(f"{module}: TLC rc {r['rc']}\n{r['out'][max(r['out'].find('Error:'), 0):][:3000]}")
        missing = [a for a in must_cover if not r["coverage"].get(a)]
        if missing:
            raise Broken(f"{module}: actions never taken: {missing}; coverage {r['coverage']}")
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["states"]
        self.cov["parts"].append({"design": name or module, "distinct_states": r["distinct"], "wall_s": round(r["wall"], 1),
                                  "actions": r["coverage"]})
        return r

    def gen(self, module, cfg, name=None, **kw):
        """Behaviours of the specification (its states printed with "@@"), to be replayed into the code."""
        r = tlc(module, cfg, **kw)
        if r["rc"] != 0:
            raise Broken(f"{module}: TLC rc {r['rc']}\n{r['out'][-3000:]}")
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["states"]
        docs = sorted(r["docs"], key=lambda d: json.dumps(d, sort_keys=True))
        self.cov["parts"].append({"behaviours": name or module, "distinct_states": r["distinct"], "generated": len(docs),
                                  "wall_s": round(r["wall"], 1)})
        return docs

    # -- binding
    def real(self, harness, cases, jit=False, timeout=600, procs=4):
        t = time.time()
        outs = run_real(harness, cases, jit=jit, timeout=timeout, procs=procs)
        self.cov["runs_of_real_code"] += len(cases)
        self.cov["parts"].append({"real_code": harness, "jit": bool(jit), "cases": len(cases), "wall_s": round(time.time() - t, 1)})
        return outs

    def validate(self, module, runs, cfg="SPECIFICATION TraceSpec\nINVARIANT Verdict\nCHECK_DEADLOCK FALSE\n",
                 workers=8, timeout=800, label=None, probe=None):
        """Decide with TLC whether every run is a behaviour of the specification.

        runs: list of dict(id, in, out, ...).  The trace module prints one verdict for each run:
        <<id, failed clauses>>.  A run on which the specification is not even defined is rejected too.
        Returns [(run, clauses)] of rejected runs."""
        if not runs:
            return []
        for k, r in enumerate(runs):
            r["id"] = k + 1
        rejected, todo, t0 = [], list(runs), time.time()
        exc = [r for r in todo if isinstance(r.get("out"), dict) and "exc" in r["out"] and not r.get("exc_ok")]
        for r in exc:
            rejected.append((r, ["raised:" + str(r["out"]["exc"])]))
        todo = [r for r in todo if r not in exc] if exc else todo
        distinct = generated = 0
        rounds = 0
        while todo:
            rounds += 1
            tmp = tempfile.mkdtemp(prefix="fmktr")
            try:
                path = os.path.join(tmp, "trace.ndjson")
                with open(path, "w") as f:
                    for r in todo:
                        f.write(json.dumps({k: v for k, v in r.items() if k not in ("meta", "case")}) + "\n")
                res = tlc(module, cfg, env={"TRACE": path}, workers=workers, timeout=timeout)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
            distinct += res["distinct"]
            generated += res["states"]
            verdicts = {}
            for d in res["docs"]:
                verdicts[d[0]] = d[1]
            byid = {r["id"]: r for r in todo}
            for i, bad in verdicts.items():
                if i not in byid:
                    raise Broken(f"{module}: verdict on unknown run {i}")
                if bad:
                    rejected.append((byid[i], bad))
            left = [r for r in todo if r["id"] not in verdicts]
            if res["rc"] == 0:
                if left:
                    raise Broken(f"{module}: {len(left)} runs without a verdict, first {left[0]['id']}\n{res['out'][-1500:]}")
                break
            if res["rc"] not in REJECT:
                raise Broken(f"{module}: TLC rc {res['rc']}\n{res['out'][max(res['out'].find('Error:'), 0):][:3000]}")
            # the specification could not be evaluated on some run: find it, reject it, go on with the others
            if len(todo) == 1:
                rejected.append((todo[0], ["outside the specification: " + tail_error(res["out"])]))
                break
            if rounds > 40:
                rejected.append((left[0] if left else todo[0], ["outside the specification: " + tail_error(res["out"])]))
                break
            m = re.search(r"/\\ rid = (\d+)", res["out"])
            if m and int(m.group(1)) in byid and int(m.group(1)) not in verdicts:
                i = int(m.group(1))
                rejected.append((byid[i], ["outside the specification: " + tail_error(res["out"])]))
                todo = [r for r in left if r["id"] != i]
            else:
                raise Broken(f"{module}: TLC rc {res['rc']} and no run named\n{res['out'][-3000:]}")
            if len(rejected) > 25 or time.time() - t0 > 240:
                break
        self.cov["states"] += distinct
        self.cov["transitions"] += generated
        if probe is None:
            self.cov["traces_validated_against_impl"] += len(runs)
            self.cov["parts"].append({"trace_validation": label or module, "traces": len(runs), "distinct_states": distinct,
                                      "rejected": len(rejected), "wall_s": round(time.time() - t0, 1)})
            if runs:
                self.samples.setdefault(label or module, (module, cfg, runs))
        return rejected

    def judge(self, module, harness, runs, label=None, only=None, **kw):
        """validate() and report every rejected run as a violation (or a known finding).

        only: decides which clauses of the specification belong to this property."""
        rej = self.validate(module, runs, label=label, **kw)
        for run, clauses in rej:
            if only:
                clauses = [x for x in clauses if str(x).startswith(("raised:", "outside the spec")) or only(str(x))]
                if not clauses:
                    continue
            self.reject(module, harness, run, clauses, kw.get("cfg"))
        return rej

    def reject(self, module, harness, run, clauses, cfg=None):
        for k in self.known:
            if k.get("match") and all(re.search(v, json.dumps(run.get(f, ""), sort_keys=True)) for f, v in k["match"].items()) \
                    and all(any(re.search(c, x) for c in k.get("clauses", [".*"])) for x in clauses):
                self.known_hit[k["id"]] = self.known_hit.get(k["id"], 0) + 1
                return
        self.viol.append(dict(module=module, harness=harness, run=run, clauses=clauses, cfg=cfg))

    def canary(self, module, run, corrupt, cfg="SPECIFICATION TraceSpec\nINVARIANT Verdict\nCHECK_DEADLOCK FALSE\n"):
        """Show the binding: each corrupted copy of an accepted run must be rejected."""
        runs = []
        for name, f in corrupt:
            c = json.loads(json.dumps({k: v for k, v in run.items() if k != "meta"}))
            f(c)
            c["canary"] = name
            runs.append(c)
        rej = self.validate(module, runs, cfg=cfg, probe=True)
        hit = {r["canary"] for r, _ in rej}
        missed = [n for n, _ in corrupt if n not in hit]
        if missed:
            raise Broken(f"{module}: corrupted traces accepted: {missed}")
        self.cov["parts"].append({"binding_canaries_rejected": sorted(hit)})

    def finish(self, assumptions=(), extra=None):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        if extra:
            self.cov.update(extra)
        lines = []
        for k in self.known:
            if k.get("kind") == "finding" and self.known_hit.get(k["id"]):
                lines.append(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        seen = set()
        nviol = 0
        for v in self.viol:
            key = (v["module"], re.sub(r"\d+", "#", v["clauses"][0])[:60])
            if key in seen and nviol >= 1:
                continue
            seen.add(key)
            nviol += 1
            if nviol > 8:
                break
            path = os.path.join(VERIF, "replays", f"{self.pid}-{nviol}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            lines.append(f"violated: {v['module']}: {'; '.join(map(str, v['clauses']))[:400]}")
            lines.append(f"VIOLATION property={self.pid} replay={path}")
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(self.cov, samples=[{"trace": k, "run": sample(r[2])} for k, r in self.samples.items()]),
                  wall_s=round(time.time() - self.t0, 1))
        ev["assumptions"] = list(assumptions)
        ev["violations"] = len(self.viol)
        ev["known_findings"] = [k["id"] for k in self.known if self.known_hit.get(k["id"])]
        tmp = os.path.join(VERIF, "evidence", f".{self.pid}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{self.pid}.json"))
        print(f"{self.pid} {self.tier}: {self.cov['states']} states, {self.cov['runs_of_real_code']} runs of the code, "
              f"{self.cov['traces_validated_against_impl']} traces validated, {len(self.viol)} rejected, {ev['wall_s']} s")
        for line in lines:
            print(line)
        return 1 if self.viol else 0


def sample(runs):
    r = runs[0]
    return json.dumps({k: v for k, v in r.items() if k != "meta"})[:600]


def tail_error(out):
    m = re.findall(r"(?:Error: |The exception was a |: )(.+)", out)
    i = out.find("Error:")
    return re.sub(r"\s+", " ", out[i:i + 300]) if i >= 0 else "unknown"


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == pid and k.get("kind") == "finding"]


def main(fn, pid, **kw):
    """Entry point of a check: fn(check) explores; the outcome is exit 0, or exit 1 with a VIOLATION line."""
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        v = json.load(open(sys.argv[2]))
        c = Check(pid, **kw)
        run = v["run"]
        if v.get("harness"):
            run["out"] = run_real(v["harness"], [run["case"] if "case" in run else run["in"]], jit=run.get("jit", False))[0]
        rej = c.validate(v["module"], [run], **({"cfg": v["cfg"]} if v.get("cfg") else {}))
        print("rejected:" if rej else "accepted", rej[0][1] if rej else "")
        sys.exit(1 if rej else 0)
    c = Check(pid, **kw)
    try:
        extra = fn(c) or {}
        rc = c.finish(**extra)
    except Broken as e:
        print("CHECK BROKEN:", e, file=sys.stderr)
        rc = 2
    sys.exit(rc)
