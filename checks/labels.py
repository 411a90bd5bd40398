"""C15 triple barrier labels (Tbm.tla), C16 overlap weights, C17 final weights (Weights.tla), C18 CUSUM filter (CusumFilter.tla)."""
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vk
from barindex import S, rand_times, BASE

TBM = '''SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS MaxN = {n}
 Gaps = {gaps}
 Prices = {px}
 Tgts = {tgts}
 Bots = {bots}
 Tops = {tops}
 Vbs = {vbs}
 Mincs = {mincs}
 Minrets = {minrets}
 Sides = {sides}
 NEv = {nev}
 Emits = TRUE
INVARIANTS InWindow FirstTouch LabelsOk WeightsOk Total PrintRun
'''


def pairs(c, harness, cases, jitcases, procs=6):
    for k, x in enumerate(cases):
        x["short"] = k % 2  # leave out what is at its default
    runs = []
    for jit, cs in ((False, cases), (True, jitcases)):
        outs = c.real(harness, cs, jit=jit, procs=procs if not jit else 2)
        runs += [dict(**{"in": x}, out=o, jit=jit) for x, o in zip(cs, outs)]
    return runs


def walk(rng, n, step=(0, 0, .25, -.25, .5, -.5, 1, -1, 3, -3), p=100.0):
    if rng.random() < .15:  # coins worth millionths, and ones worth millions
        f = 2.0 ** rng.choice([-24, -12, 16])
        return [x * f for x in walk(rng, n, step, p)]
    px = []
    for _ in range(n):
        p = max(1.0, p + rng.choice(step))
        px.append(p)
    return px


def rand_tbm(rng):
    n = rng.choice([2, 3, 5, 9, 17, 40]) if rng.random() < .97 else rng.choice([150, 280])
    s = rng.choice([10**9, 10**9, 60 * 10**9, 10**6, 67 * 10**6, 253_000])
    ts = rand_times(rng, n, s)
    if rng.random() < .4:
        ts = [t // 1000 * 1000 for t in ts]
    px = walk(rng, n)
    g = rng.choice([67 * 10**6, 134 * 10**6, 536 * 10**6, 253_000, 262_000, 1_012_000, 1_386 * 10**6, 1_001 * 10**6, 1_009 * 10**6, 4_004 * 10**6]) if rng.random() < .2 else 0
    if g:  # steps whose seconds are not a binary fraction, and a price that moves at each
        ts = [BASE + g * i for i in range(n)]
        px = walk(rng, n, (3, -3, 5, -5))
    vb = rng.choice([s, 2 * s, 5 * s, 20 * s, s // 2, s + 100, 10**6, ts[-1] - ts[0] or s, (ts[n // 2] - ts[0]) or s])
    vb = max(1000, vb // 1000 * 1000)
    k = rng.randrange(1, min(n, 7 if n < 100 else 140) + 1)
    at = sorted(rng.sample(range(n), k))
    inf = float("inf")
    mult = lambda: rng.choice([1, 1, 2, .5, inf, -inf if rng.random() < .3 else 1, 0 if rng.random() < .2 else 1.5])
    bot, top = mult(), mult()
    if top == -inf:
        top = inf
    if max(bot, top) == -inf:
        bot = 1
    timed = rng.random() < .5
    if rng.random() < .2:  # events of one time
        at = sorted(at + rng.choices(at, k=rng.choice([1, 1, 2, 3])))
    rows, used = [], set()
    for j in at:
        t = ts[j] - (rng.choice([0, 1, 5, 10**5]) if timed and rng.random() < .4 else 0)
        if t in used and len(at) == len(set(at)):
            continue
        used.add(t)
        tgt = rng.choice([.005, .01, .02, .03125, .002, 0 if rng.random() < .2 else .01])
        rows.append(dict(ts=str(t), tgt=vk.num(tgt), side=rng.choice(["1", "-1", "1", "-1", "0"]), f="1", at=-1 if timed else j))
    rows.sort(key=lambda r: int(r["ts"]))
    for i in range(rng.choice([0, 0, 0, 1, 2])):
        rows[min(i, len(rows) - 1)][rng.choice(["f", "tgt"])] = "nan"
    if rng.random() < .05:  # an unknown target among known ones
        rows[rng.randrange(len(rows))]["tgt"] = "nan"
    if rng.random() < .15:
        rows[rng.randrange(len(rows))]["f"] = "nan"
    if all(r["f"] == "nan" for r in rows):
        rows[-1]["f"] = "1"
    i, j = sorted(rng.choices(at, k=1) + rng.choices(range(n), k=1))
    apart = (ts[j] - ts[i]) // 1000 * 1000  # of two trades, as a least time to hold
    c = dict(bot=vk.num(bot), top=vk.num(top), vb=str(vb), minc=str(rng.choice([0, 10**9, 10**6, 1000, s, 3 * s, apart, apart]) if not g else g * rng.choice([1, 2, 4])),
             minret=vk.num(rng.choice([0, 0, .001, .0078125, .02])), meta=rng.random() < .4)
    ix = rng.choice([u for u, m in (("ns", 1), ("us", 1000), ("ms", 10**6), ("s", 10**9)) if all(int(r["ts"]) % m == 0 for r in rows)]) if rng.random() < .4 else ""
    before = [rng.randrange(1, n + 1) for _ in range(rng.choice([0, 0, 1, 2]))]
    return dict(kind="tbm", ix=ix, before=before, cfg=c, tr=[dict(ts=str(a), px=vk.num(b)) for a, b in zip(ts, px)], rows=rows)


def tbm(c):
    base = dict(n=4, gaps=S(0, 1, 2), px=S(1, 2, 4), tgts=S("1/2", 1), bots=S(1), tops=S(1), vbs=S(2), mincs=S(0), minrets=S(0), sides=S(0), nev=1)
    parts = [("one event, symmetric barriers", dict(n=4, mincs=S(0, 1), vbs=S(2), tgts=S("1/2"))),
             ("barriers of all widths", dict(n=3, gaps=S(1), px=S(1, 2, 4), tgts=S("1/2", 0), bots=S(1, 2, 0, "inf", "-inf"),
                                             tops=S(1, 2, 0, "inf"), vbs=S(1, 2), minrets=S(0, "3/4"))),
             ("sided events", dict(n=4, gaps=S(1, 2), px=S(1, 2, 4), sides=S(1, "-1"), mincs=S(0), minrets=S(0, 1), vbs=S(2), bots=S(1, 2), tgts=S(1))),
             ("two events", dict(n=4, gaps=S(0, 1), px=S(1, 2), tgts=S("1/2", 1), vbs=S(2), nev=2))]
    docs = []
    for name, kw in parts:
        if not c.quick:
            kw = dict(kw, n=kw["n"] + 1)
        r = c.mc("MCTbm", TBM.format(**dict(base, **kw)), name=name)
        d = sorted(r["docs"], key=lambda d: vk.json.dumps(d, sort_keys=True))
        cap = 1800 if c.quick else 20000
        e = d[::-(-len(d) // cap)]
        c.cov["parts"].append({"behaviours": name, "generated": len(d), "replayed": len(e)})
        docs += [x for x in e if len({r["ts"] for r in x["rows"]}) == len(x["rows"])]
    for k, d in enumerate(docs):
        d["kind"] = "tbm"
        off = 0
        for t in d["tr"]:
            t["ts"] = str(BASE + int(t["ts"]) * 10**9)
        seen = set()
        for r in d["rows"]:
            r["ts"] = str(BASE + int(r["ts"]) * 10**9)
            seen.add(r["ts"])
        for f in ("vb", "minc"):
            d["cfg"][f] = str(int(d["cfg"][f]) * 10**9)
        if k % 2 and len(seen) == len(d["rows"]):
            for r in d["rows"]:
                r["at"] = -1
    rnd = [rand_tbm(c.rng) for _ in range(900 if c.quick else 9000)]
    runs = pairs(c, "labels", docs + rnd, rnd[:500] + docs[::23])
    c.judge("TbmTrace", "labels", runs, label="triple barrier labels")
    if not c.viol:
        good = next(r for r in runs if len(r["out"]["res"]) >= 2 and any(0 < vk.flt(x["w"]) < 1 for x in r["out"]["res"]))

        def put(k, f):
            return lambda r: r["out"]["res"][0].__setitem__(k, f(r["out"]["res"][0][k]))
        c.canary("TbmTrace", good, [
            ("touch one trade later", put("touch", lambda v: v + 1)), ("label turned", put("lab", lambda v: 1 - v if v in (0, 1) else -v)),
            ("return scaled", put("ret", lambda v: vk.num(vk.flt(v) * 1.001 + .0001))), ("start moved", put("at", lambda v: v + 1)),
            ("weight changed", put("w", lambda v: "1/3")), ("event lost", lambda r: r["out"]["res"].pop())])
    return dict(assumptions=["targets are not negative", "a return within 1e-9 of a barrier may touch it or not (binary64 logarithms)"])


# ---------------------------------------------------------------- weights

WMC = '''SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS MaxN = {n}
 MaxE = {e}
 Prices = {px}
 Copies = {m}
 Emits = TRUE
INVARIANTS UniqRange Shared Conserved PrintRun
'''


def overlap(c):
    docs = []
    for name, kw in (("overlapping labels", dict(n=3 if c.quick else 4, e=3, m="{1}")), ("labels of equal life", dict(n=3, e=2, m="{1, 2, 3}"))):
        r = c.mc("MCOverlap", WMC.format(px=S(1, 2), **kw), name=name)
        d = sorted(r["docs"], key=lambda d: vk.json.dumps(d, sort_keys=True))
        docs += d[::-(-len(d) // (1500 if c.quick else 15000))]
    for d in docs:
        d["kind"] = "info"
        for k, t in enumerate(d["tr"]):
            t["ts"] = str(BASE + k * 10**9)
    rnd = []
    for i in range(600 if c.quick else 6000):
        n = c.rng.choice([2, 4, 9, 25, 60]) if i % 40 else 300
        many = [1] if i % 3 else [1, 2, 60, 127, 128, 256]
        px = walk(c.rng, n)
        ev = []
        for s in sorted(c.rng.sample(range(n), c.rng.randrange(1, min(n, 12 if n < 300 else 200) + 1))):
            ev.append(dict(s=s, t=min(n - 1, s + c.rng.choice([0, 1, 2, 5, 20])), w=vk.num(c.rng.random()), m=c.rng.choice(many)))
        if i % 60 == 0:
            ev[0]["m"] = 0
            ev[0]["m"] = 32767 - sum(e["m"] for e in ev)
        rnd.append(dict(kind="info", norm=c.rng.random() < .4, ev=ev,
                        tr=[dict(ts=str(BASE + k * 10**9), px=vk.num(p)) for k, p in enumerate(px)]))
    for m in (32768, 40000, 65536):  # the number of labels at a trade is kept in 16 bits
        rnd.append(dict(kind="info", norm=False, ev=[dict(s=1, t=3, w="1", m=m)], tag=f"{m} labels at one trade",
                        tr=[dict(ts=str(BASE + k * 10**9), px=vk.num(100 + k * k)) for k in range(5)]))
    runs = pairs(c, "labels", docs + rnd, rnd[:300] + rnd[-3:] + docs[::17])
    own = [dict(rand_tbm(c.rng), kind="own", norm=c.rng.random() < .4, again=c.rng.choice([1, 2])) for _ in range(500 if c.quick else 5000)]
    kit = [r for r in pairs(c, "labels", own, own[:100]) if "res" not in r["out"]]  # without labels there is nothing to weigh
    for r in kit:
        r["in"] = dict(r["in"], ev=r["out"].get("ev", []))
    c.judge("OverlapTrace", "labels", runs + kit, label="uniqueness and attribution")
    if not c.viol:
        good = next(r for r in runs if len(r["out"]["uniq"]) > 3 and not r["in"]["norm"])
        c.canary("OverlapTrace", good, [
            ("uniqueness changed", lambda r: r["out"]["uniq"].__setitem__(1, "5/7")),
            ("attribution changed", lambda r: r["out"]["attr"].__setitem__(0, "3")),
            ("event lost", lambda r: r["out"]["attr"].pop())])
    return dict(assumptions=["at most 32767 labels overlap at one trade, beyond which the known finding begins"])


FMC = '''SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS MaxN = {n}
 Us = {us}
 Rs = {rs}
 Vs = {vs}
 Cs = {cs}
 Emits = TRUE
INVARIANTS DecayRange DecayMonotone MeanOne Balanced PrintRun
'''


def final(c):
    r = c.mc("MCFinal", FMC.format(n=3, us=S(1, "1/2", "1/4"), rs=S(1, 3) if c.quick else S(0, 1, 3), vs=S(1, "1/2"), cs=S(1, 0, "1/2", "-1/2", "-3/4")), name="final weights")
    docs = sorted(r["docs"], key=lambda d: vk.json.dumps(d, sort_keys=True))
    docs = docs[::-(-len(docs) // (3000 if c.quick else 30000))]
    for d in docs:
        d["kind"] = "final"
    rnd = []
    for _ in range(600 if c.quick else 6000):
        n = c.rng.choice([1, 2, 3, 8, 20, 60]) if c.rng.random() < .97 else 300
        g = lambda lo: [vk.num(max(lo, c.rng.random())) for _ in range(n)]
        if c.rng.random() < .25:  # weights of very different magnitudes: rare classes, dust
            small = c.rng.choice([6, 12, 25])
            g = lambda lo: [vk.num(max(lo, c.rng.random()) * 2.0 ** -c.rng.choice([0, 0, small])) for _ in range(n)]
        rnd.append(dict(kind="final", u=g(.01), r=g(0) if c.rng.random() < .6 else [], v=g(0) if c.rng.random() < .5 else [],
                        mis=c.rng.choice(["r", "v", "lab"]) if c.rng.random() < .15 else "", how=c.rng.choice(["shift", "turned", "longer", "shorter"]),
                        lab=[c.rng.choice([-1, 0, 1] if c.rng.random() < .3 else [-1, 1]) for _ in range(n)] if c.rng.random() < .7 else [],
                        c=vk.num(c.rng.choice([1, 0, .5, .25, -.5, -.25, -.875, -1, c.rng.uniform(-.9, 1)]))))
    runs = pairs(c, "labels", docs + rnd, rnd[:300] + docs[::17])
    c.judge("FinalTrace", "labels", runs, label="final weights")
    if not c.viol:
        good = next(r for r in runs if len(r["out"]["w"]) > 3 and r["in"]["lab"])
        c.canary("FinalTrace", good, [
            ("attribution scaled", lambda r: r["out"].__setitem__("attr", [vk.num(vk.flt(x) * 2 + .1) for x in r["out"]["w"]])),
            ("decay changed", lambda r: r["out"]["decay"].__setitem__(0, "2")),
            ("weight changed", lambda r: r["out"]["w"].__setitem__(1, vk.num(vk.flt(r["out"]["w"][1]) * 1.0001 + 1e-6))),
            ("weights swapped with another scale", lambda r: r["out"].__setitem__("w", [vk.num(vk.flt(x) * 2 + .1) for x in r["out"]["w"]]))])
    return dict(assumptions=["decay intercepts in [-1, 1]"])


# ---------------------------------------------------------------- CUSUM filter

CMC = '''SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS MaxN = {n}
 Prices = {px}
 Thrs = {th}
 Emits = TRUE
INVARIANTS Signs Minimal Ordered PrintRun
PROPERTY Causal
'''


def cusum(c):
    r = c.mc("MCCusumFilter", CMC.format(n=5 if c.quick else 6, px=S(1, 2, 4), th=S("3/5", 1)), name="CUSUM filter")
    docs = sorted(r["docs"], key=lambda d: vk.json.dumps(d, sort_keys=True))
    docs = docs[::-(-len(docs) // (4000 if c.quick else 40000))]
    for k, d in enumerate(docs):
        d["kind"] = "cusum"
        if len(set(d["thr"])) == 1 and k % 2:
            d["thr"] = d["thr"][:1]
    rnd = []
    for _ in range(800 if c.quick else 8000):
        n = c.rng.choice([2, 3, 9, 33, 100]) if c.rng.random() < .98 else 400
        thr = [vk.num(c.rng.choice([.001, .005, .01, .02, .05, .3 if c.rng.random() < .2 else .004])) for _ in range(n)]
        if c.rng.random() < .4:
            thr = [c.rng.choice([thr[0], "0"])]  # among others, zero would leave it open which of two sums fired
        elif c.rng.random() < .3:  # a volatility estimate that is not known yet
            for i in range(c.rng.randrange(1, n)):
                thr[i] = "nan"
        rnd.append(dict(kind="cusum", px=vk.nums(walk(c.rng, n)), thr=thr))
    runs = pairs(c, "labels", docs + rnd, rnd[:400] + docs[::17])
    c.judge("CusumFilterTrace", "labels", runs, label="CUSUM filter")
    if not c.viol:
        good = next(r for r in runs if len(r["out"]["ev"]) > 2)
        c.canary("CusumFilterTrace", good, [
            ("event moved", lambda r: r["out"]["ev"].__setitem__(0, r["out"]["ev"][0] + 1)),
            ("event lost", lambda r: r["out"]["ev"].pop()), ("event invented", lambda r: r["out"]["ev"].insert(0, 0))])
    return dict(assumptions=["a sum within 1e-9 of its threshold may fire or not (binary64 logarithms)"])


if __name__ == "__main__":
    which = sys.argv.pop(1)
    vk.main({"C15": tbm, "C16": overlap, "C17": final, "C18": cusum}[which], which)
