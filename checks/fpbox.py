"""C11: the footprint container (Footprint.tla)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vk

MC = '''SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS MaxL = {n}
 N = 3
 Emits = TRUE
INVARIANTS Views Whole PrintRun
'''
BASE = 1_706_745_600 * 10**9


def mk_bars(rng, n, bare, gap):
    out, at, k = [], 0, rng.choice([None, 2, 3])
    twins = rng.random() < .2  # bars that close at the same time
    for i in range(n):
        at += gap or (0 if twins and i and rng.random() < .4 else rng.randrange(1, 9))
        lo, m = rng.randrange(1, 50), k or rng.randrange(1, 5)
        rows = [[lo + j, rng.randrange(0, 99), rng.randrange(0, 99), rng.randrange(0, 9), rng.randrange(0, 9), rng.randrange(2), rng.randrange(2)]
                for j in range(m)]
        out.append(dict(at=at, rows=rows, extra=[0] * 6 if bare else [lo, rng.randrange(9), rng.randrange(9), rng.randrange(-5, 6), rng.randrange(9), rng.randrange(9)]))
    return out


def case(rng, hist, n, gap=0):
    bare = rng.random() < .2
    return dict(bars=mk_bars(rng, n, bare, gap), hist=[dict(e, form=rng.choice(["text", "ts"])) for e in hist], base=str(BASE),
                unit=str(rng.choice([1, 10**9, 60 * 10**9])), bare=bare, numba=not bare and rng.random() < .4)


def rand_hist(rng, n, L):
    h, m = [], 1
    for _ in range(L):
        k, r = rng.randrange(1, m + 1), rng.random()
        b = (lambda: rng.choice([[], [rng.randrange(-n - 2, n + 3)]]))
        if r < .3:
            h.append(dict(op="slice", k=k, a=b(), b=b(), st=rng.choice([1, 1, 1, 2, 3, -1, -2])))
            m += 1
        elif r < .45:
            lo, hi = sorted([rng.randrange(0, 6 * n), rng.randrange(0, 6 * n)])
            if any(e["op"] == "slice" and e["st"] < 0 for e in h):
                k = 1  # time ranges are for chronological bars
            h.append(dict(op="time", k=k, a=[lo], b=[hi], st=1))
            m += 1
        elif r < .7:
            h.append(dict(op="cast", k=k, a=[], b=[], st=rng.randrange(2)))
        elif r < .85:
            h.append(dict(op="bar", k=k, a=[rng.randrange(-n - 1, n + 1)], b=[], st=1))
        else:
            if any(e["op"] == "slice" and e["st"] < 0 for e in h):
                k = 1
            h.append(dict(op="table", k=k, a=[], b=[], st=1))
    return h


def usable(h):
    """Time ranges and tables are for chronological bars: no reversed container is asked for them."""
    rev = [False]
    for e in h:
        r = rev[e["k"] - 1]
        if e["op"] in ("time", "table") and r:
            return False
        if e["op"] in ("slice", "time"):
            rev.append(r ^ (e["op"] == "slice" and e["st"] < 0))
    return True


def check(c):
    r = c.mc("MCFootprint", MC.format(n=2), name="container histories")
    docs = [d for d in sorted(r["docs"], key=lambda d: vk.json.dumps(d, sort_keys=True)) if usable(d)]
    mine = c.rng.sample(docs, min(len(docs), 1500 if c.quick else 20000))
    c.cov["parts"].append({"behaviours": "container histories", "generated": len(docs), "replayed": len(mine)})
    cases = [case(c.rng, d, 3, 10) for d in mine]
    for _ in range(800 if c.quick else 10000):
        n = c.rng.choice([0, 1, 2, 4, 9]) or 1
        h = rand_hist(c.rng, n, c.rng.choice([3, 6, 10]))
        if usable(h):
            cases.append(case(c.rng, h, n))
    runs = []
    for jit in (False, True):
        # numba cannot type an empty list: compiled runs leave out histories that slice one
        cs = cases if not jit else [r["case"] for r in (runs[-150:] + runs[:1500:30]) if "steps" in r["out"] and not any(
            f["kind"] == "list" and not f["len"] for s in r["out"]["steps"] for f in s["all"])]
        outs = c.real("fpbox", cs, jit=jit, procs=8 if not jit else 4)
        runs += [dict(**{"in": dict(bars=x["bars"], hist=x["hist"]), "case": x}, out=o, jit=jit) for x, o in zip(cs, outs)]
    c.judge("FootprintTrace", "fpbox", runs, label="container histories")
    if not c.viol:
        good = next(r for r in runs if r["in"]["hist"][-1]["op"] == "table" and r["out"]["steps"][-1]["table"])
        c.canary("FootprintTrace", good, [
            ("bar lost", lambda r: r["out"]["steps"][-1]["all"][0]["bars"].pop()),
            ("row changed", lambda r: r["out"]["steps"][-1]["table"][0]["row"].__setitem__(1, 12345)),
            ("rows swapped", lambda r: r["out"]["steps"][-1]["table"].append(r["out"]["steps"][-1]["table"].pop(0)) if len(r["out"]["steps"][-1]["table"]) > 1
             else r["out"]["steps"][-1]["table"].pop())])
    return dict(assumptions=["time ranges and tables are asked of containers whose bars are in chronological order",
                             "compiled code does not slice an empty list container (numba cannot type it)"])


if __name__ == "__main__":
    vk.main(check, sys.argv.pop(1))
