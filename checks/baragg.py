"""C04 OHLCV, C05 directional features, C06 trade sizes, C07 footprints (BarAgg.tla)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vk
from barindex import S, BASE, rand_times, cfg

MC = '''SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS MaxN = {n}
 Prices = {px}
 Vols = {vols}
 Sides = {sides}
 Thetas = {thetas}
 Emits = TRUE
INVARIANTS {inv} PrintRun
'''
WHAT = {"C04": ("ohlcv", "OhlcvSane"), "C05": ("dir", "DirectionalSane"), "C06": ("size", "TradeSizeSane"), "C07": ("fp", "FootprintSane")}


def rand_case(rng, what, kits):
    n = rng.choice([1, 2, 3, 6, 11, 25])
    long = what != "fp" and rng.random() < .04
    fine = long and rng.random() < .5  # very many bars, not long ones
    if long:
        n = rng.choice([70, 150, 300])
    big = rng.random() < .15
    tick = rng.choice(["1", "1/2", "1/4", "5", "1/8"])
    t = vk.flt(tick)
    base = rng.randrange(4, 400)
    tr = []
    on = what != "fp" or rng.random() < .7
    if what != "size" and rng.random() < .3:  # decimal ticks that binary fractions cannot hold, present-day prices
        t = rng.choice([.1, .01, .001, 1e-8])
        tick = vk.num(t)
        base = rng.choice([base, 5_000_000 + base, 300_000_000 + base])
    decimal = what in ("ohlcv", "dir") and rng.random() < .2
    dust = rng.choice([12, 24, 34]) if what in ("ohlcv", "dir") and rng.random() < .15 else 0
    p = base
    for i in range(n):
        p = max(1, p + rng.choice([0, 0, 1, -1, 2, -2, 5]))
        v = rng.choice([.5, 1, 1, 2, 3, 8, 40, .125])
        if rng.random() < .05:
            v = 0
        if big:
            v *= 2**24
        elif dust:
            v *= 2.0**-dust
        elif decimal:
            v = round(v * .7, 4)
        tr.append(dict(px=vk.num(p * t + (0 if on else rng.choice([0, 0, .3, -.3, .45, -.45]) * t)), vol=vk.num(v), side=rng.choice(["1", "-1", "1", "-1", "0"] if rng.random() < .3 else ["1", "-1"]), sg="nan"))
    par = dict(theta=[], mult=vk.num(rng.choice([1.0, 2.0, 5.0, .5])), tick=tick, factor=vk.num(rng.choice([1.0, 1.5, 3.0])))
    theta = [vk.num(rng.choice([0.0, .5, 1.0, 2.0, 3.0, 100.0])) for _ in range(7)]
    if what == "fp" and rng.random() < .35:
        tr = book(rng, t, base)
        n = len(tr)
    if not kits:
        a = rng.choice([-1, 0])
        cl, k = [a], a
        while True:
            k = min(n - 1, k + (rng.choice([60, 70, 100, 130]) if long and not fine else n if what == "fp" and rng.random() < .4 else
                                rng.choice([1, 1, 2, 3, 5, 8] + ([0] if len(cl) > 1 else []))))
            if len(cl) == 1 and k == a:
                cl.append(k)  # single trade at the anchor: an empty bar
                break
            cl.append(k)
            if k == n - 1 and rng.random() < .7:
                break
        par["theta"] = [theta[i % 7] for i in range(len(cl) - 1)]
        if a == -1 and cl[1] == -1:
            cl[1] = 0
        return dict(tr=tr, cl=cl, par=par, what=what, via="core")
    kind = rng.choice(["time", "time", "tick", "volume", "dollar"])
    iv = rng.choice([10**9, 10**9, 60 * 10**9, 10**8])
    for x, ts in zip(tr, rand_times(rng, n, iv)):
        x["ts"] = str(ts)
    thr = {"time": iv, "tick": rng.choice([1, 2, 3, 4, 5, max(n, 1) if (long and not fine) or rng.random() < .2 else 5]), "volume": rng.choice([2, 5, 20, 300]), "dollar": rng.choice([50, 500, 3000, 50000])}[kind]
    par["theta"] = theta
    return dict(tr=tr, cl=[], par=par, what=what, via="kit", cfg=cfg(kind, str(thr)))


def book(rng, t, base):
    """Trades over several levels, one side dominant at each: imbalances and runs of either sign next to each other."""
    tr, dom = [], 1
    for k in range(rng.choice([3, 5, 8, 12])):
        dom = dom if rng.random() < .7 else -dom
        for s in (1, -1):
            v = rng.choice([4, 6, 9, 30]) if s == dom else rng.choice([0, 0, 1, 2, 3])
            if v:
                tr.append(dict(px=vk.num((base + k) * t), vol=vk.num(v), side=str(s), sg="nan"))
    rng.shuffle(tr)
    return tr


def anchor(case):
    if case["cfg"]["kind"] != "time":
        return 0
    iv = int(case["cfg"]["iv"])
    c0 = int(case["tr"][0]["ts"]) // iv * iv
    return sum(int(t["ts"]) <= c0 for t in case["tr"]) - 1


def check(c):
    what, inv = WHAT[c.pid]
    px = {"ohlcv": S(1, 2, 5), "dir": S(1, 3), "size": S(1), "fp": S(1, 2, 4)}[what]
    vols = {"ohlcv": S(0, 1, 3), "dir": S(1, 2), "size": S(0, 1, 3, 8), "fp": S(1, 5)}[what]
    sides = {"ohlcv": S(1), "dir": S(1, -1, 0), "size": S(1), "fp": S(1, -1)}[what]
    n = 3 if what in ("ohlcv", "dir") else 4 if what == "size" else 3
    if not c.quick:
        n += 1
    r = c.mc("MCBarAgg", MC.format(n=n, px=px, vols=vols, sides=sides, thetas=S(0, 1, 2) if what == "size" else S(1), inv=inv),
             name=what)
    docs = sorted(r["docs"], key=lambda d: vk.json.dumps(d, sort_keys=True))
    docs = [dict(d, what=what, via="core") for d in docs]
    total = len(docs)
    cap = (4500 if what == "fp" else 9000) if c.quick else 60000
    docs = docs[::-(-total // cap)]
    c.cov["parts"].append({"behaviours_generated": total, "behaviours_replayed": len(docs), "exhaustive": len(docs) == total})
    k = 300 if c.quick else 3000
    core = [rand_case(c.rng, what, False) for _ in range(k)]
    kits = [rand_case(c.rng, what, True) for _ in range(k)]
    runs = []
    for jit, cs in ((False, docs + core + kits), (True, core + kits + docs[::23])):
        outs = c.real("agg", cs, jit=jit, procs=6 if not jit else 3)
        for x, o in zip(cs, outs):
            x = dict(x)
            if x["via"] == "kit":
                if "exc" in o and len(x["tr"]) < 2:
                    continue  # no bar at all
                if "exc" in o and nobars(x):
                    continue
                x["cl"] = [anchor(x)] + o.get("idx", [])
                m = len(x["par"]["theta"])
                x["par"] = dict(x["par"], theta=[x["par"]["theta"][i % m] for i in range(len(x["cl"]))])
            runs.append(dict(**{"in": x}, out=o, jit=jit, case=x))
    for r in runs:
        r.pop("case")
    c.judge("BarAggTrace", "agg", runs, label=what)
    if not c.viol:
        good = next(r for r in runs if r["in"]["via"] == "core" and len(r["in"]["cl"]) > 2 and len(r["in"]["tr"]) > 3
                    and r["in"]["cl"][1] > 1 and "nan" not in vk.json.dumps(r["out"]))
        fields = [f for f, v in good["out"]["rows"][0].items() if not isinstance(v, list) and v != "nan"]

        def bump(f):
            def g(r):
                v = r["out"]["rows"][0][f]
                r["out"]["rows"][0][f] = vk.num(vk.flt(v) * 1.01 + 0.013 if f not in ("cot",) else vk.flt(v) + 1)
            return g
        extra = [("a level volume changed", lambda r: r["out"]["rows"][0]["buy"].__setitem__(0, "77"))] if what == "fp" else []
        c.canary("BarAggTrace", good, [(f, bump(f)) for f in fields] + extra + [("row lost", lambda r: r["out"]["rows"].pop())])
    return dict(assumptions=["float32 columns are compared with relative tolerance 1e-6"])


def nobars(x):
    """The kit found no complete bar: build_ohlcv documents a ValueError then."""
    k, thr = x["cfg"]["kind"], vk.flt(x["cfg"]["thr"])
    if k == "time":
        return False
    amt = [1 if k == "tick" else vk.flt(t["vol"]) * (vk.flt(t["px"]) if k == "dollar" else 1) for t in x["tr"]]
    return sum(amt) < thr


if __name__ == "__main__":
    vk.main(check, sys.argv.pop(1))
