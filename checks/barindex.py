"""C01, C02, C03: bar formation (BarIndex.tla)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vk

MC = '''SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS Kind = "{kind}"
 MaxN = {n}
 Gaps = {gaps}
 Starts = {starts}
 Prices = {px}
 Vols = {vols}
 Sigmas = {sg}
 Params = {params}
 Floors = {floors}
 Emits = TRUE
INVARIANTS Ordered Partition TimeGrid ThresholdMet NoSplitBlock CusumSigns Total PrintRun
PROPERTY AppendOnly
'''


def S(*xs):
    return "{" + ", ".join(f'"{x}"' for x in xs) + "}"


def design(c, name, cover, **kw):
    d = dict(gaps=S(1), starts=S(100), px=S(1), vols=S(1), sg=S("nan"), params=S(1), floors=S(0))
    d.update(kw)
    r = c.mc("MCBarIndex", MC.format(**d), name=name, must_cover=cover)
    docs = r["docs"]
    docs.sort(key=lambda d: vk.json.dumps(d, sort_keys=True))
    c.cov["parts"].append({"behaviours_replayed": name, "count": len(docs), "exhaustive": True})
    return docs


def bind(c, cases, jit_cases, label):
    runs = []
    for jit, cs in ((False, cases), (True, jit_cases)):
        outs = c.real("bars", cs, jit=jit, procs=4 if not jit else 2)
        runs += [dict(**{"in": k}, out=o, jit=jit) for k, o in zip(cs, outs)]
    c.judge("BarIndexTrace", "bars", runs, label=label)
    good = [r for r in runs if "exc" not in r["out"] and len(r["out"]["em"]) >= 3]

    def one(f):
        def g(r):
            f(r["out"])
        return g
    if good and not c.viol and good[0]["in"]["cfg"]["kind"] == "cusum":
        c.canary("BarIndexTrace", max(good[:400], key=lambda r: len(r["out"]["em"])),
                 [("volatility of a close", one(lambda o: o["sigma"].__setitem__(0, "7")))])
    if good and not c.viol:
        r = max(good[:400], key=lambda r: len(r["out"]["em"]))
        c.canary("BarIndexTrace", r, [
            ("close index off by one", one(lambda o: o["em"][1].__setitem__("idx", o["em"][1]["idx"] + 1))),
            ("close dropped", one(lambda o: o["em"].pop())),
            ("close timestamp moved", one(lambda o: o["em"][0].__setitem__("ts", str(int(o["em"][0]["ts"]) + 1)))),
            ("first bar lost a trade", one(lambda o: o.__setitem__("anchor", o["anchor"] + 1)))])


BASE = 1_700_000_000 * 10**9


def rand_times(rng, n, iv):
    """Sorted ns timestamps that crowd around multiples of iv, with ties and empty intervals."""
    t = BASE // iv * iv + rng.randrange(0, 50) * iv
    out = []
    for _ in range(n):
        r = rng.random()
        if r < .25:
            pass
        elif r < .5:
            t += rng.randrange(0, max(1, iv // 2)) + 1
        elif r < .75:
            k = t // iv + rng.choice([1, 1, 1, 2, 3])
            t = max(t, k * iv + rng.choice([-200, -100, -50, -1, 0, 0, 0, 1, 50, 100, 127, 128, 200]) % iv if rng.random() < .5
                    else k * iv + rng.choice([-120, -50, -1, 0, 1, 50, 120]))
        else:
            t += rng.randrange(0, 2 * iv) + 1
        out.append(t)
    return out


def tr(ts, px, vol, sg=None):
    n = len(ts)
    return [dict(ts=str(ts[i]), px=vk.num(px[i]), vol=vk.num(vol[i]), sg=vk.num(sg[i]) if sg else "nan") for i in range(n)]


def cfg(kind, p="1", floor="0"):
    return dict(kind=kind, iv=p, thr=p, mult=p, floor=floor)


def time_bars(c):
    iv = 10
    docs = design(c, "time bars, all trade sequences", ["TimeAnchor", "TimeOnAnchor", "TimeExtend", "TimeRollClock", "TimeFinish"]
                  if False else [], kind="time", n=5 if c.quick else 6, gaps=S(0, 5, 10, 25), starts=S(0, 3), params=S(iv))
    cases = [dict(cfg=dict(d["cfg"], iv=str(10**8)), tr=[dict(t, ts=str(BASE + int(t["ts"]) * 10**7)) for t in d["tr"]]) for d in docs]
    rnd = []
    for _ in range(600 if c.quick else 6000):
        s = c.rng.choice([10**6, 10**7, 10**8, 25 * 10**7, 7 * 10**8, 10**9, 10**9, 10**9, 3 * 10**9, 60 * 10**9, 7 * 10**9,
                          3600 * 10**9, 86400 * 10**9, 10**3, 333_333_000, 3 * 10**5, 1_001 * 10**6, 1_000_001_000, 4_003_001_000])
        n = c.rng.choice([1, 2, 3, 5, 8, 13]) if c.rng.random() < .98 else 300
        ts = rand_times(c.rng, n, s)
        if c.rng.random() < .03:  # a long silence
            k, g = c.rng.randrange(n), c.rng.choice([130, 300, 1100]) * s
            ts = ts[:k] + [t + g for t in ts[k:]]
        if c.rng.random() < .1:  # the earliest years of the clock, or far ahead
            d = c.rng.choice([-BASE // s * s + 10 * s, 10**18 // s * s])
            ts = [t + d for t in ts]
        rnd.append(dict(cfg=cfg("time", str(s)), tr=tr(ts, [100] * n, [1] * n)))
    bind(c, cases + rnd, rnd[:len(rnd) // 2] + cases[::7], "time bars")
    return dict(assumptions=["intervals are whole numbers of microseconds or more", "timestamps are sorted, as TradesData leaves them"])


def threshold_bars(c):
    cases = []
    n = 5 if c.quick else 6
    cases += design(c, "tick bars", [], kind="tick", n=n + 4, params=S(1, 2, 3, 4, 5))
    cases += design(c, "volume bars", [], kind="volume", n=n, vols=S(0, 1, 2, 5), params=S(1, 3, 4, 7))
    cases += design(c, "dollar bars", [], kind="dollar", n=n - 1, px=S(1, 2), vols=S(1, 3, "1/2"), params=S(2, 4, 5))
    rnd = []
    for _ in range(500 if c.quick else 5000):
        k = c.rng.choice(["tick", "volume", "dollar", "dollar"])
        m = c.rng.choice([1, 2, 5, 9, 17, 40])
        if c.rng.random() < .03:
            m = c.rng.choice([140, 300])
        ts = rand_times(c.rng, m, 10**9)
        vol = [c.rng.choice([1, 2, 3, .5, .25, 10, 0.125]) * c.rng.randrange(1, 5) for _ in range(m)]
        wide = c.rng.random() < .25
        if wide:  # amounts of very different magnitudes whose sums binary64 still holds exactly
            k, vol = "volume", [x * 2.0 ** c.rng.choice([0, 0, 20, 27, -10]) for x in vol]
        px = [c.rng.randrange(1, 400) / 4 for _ in range(m)]
        thr = {"tick": c.rng.randrange(1, 9), "volume": c.rng.choice([1, 2.5, 4, 8, 20, 1000]),
               "dollar": c.rng.choice([10, 100.25, 250, 500, 5000])}[k]
        if m >= 140 and k == "tick":
            thr = c.rng.choice([127, 128, 129, 140, 256, 257])
        elif wide:
            a, b = sorted(c.rng.randrange(m + 1) for _ in range(2))
            thr = sum(vol[a:b]) or 2.0 ** -12
        rnd.append(dict(cfg=cfg(k, vk.num(thr)), tr=tr(ts, px, vol)))
    bind(c, cases + rnd, rnd + cases[::11], "tick, volume and dollar bars")
    return dict(assumptions=["amounts and thresholds are dyadic, so binary64 sums are exact and ties are decided"])


def cusum_bars(c):
    n = 4 if c.quick else 5
    docs = design(c, "CUSUM bars", [], kind="cusum", n=n, gaps=S(0, 1), px=S(1, 2, 4) if c.quick else S(1, 2, 4, 3),
                  sg=S("nan", 1, "1/2") if c.quick else S("nan", 1, "1/2"), params=S(1), floors=S("3/5"))
    docs = [d for d in docs if any(t["sg"] != "nan" for t in d["tr"])]
    if c.quick:
        docs = docs[::4] if len(docs) > 12000 else docs
    rnd = []
    for _ in range(600 if c.quick else 6000):
        m = c.rng.choice([2, 5, 9, 17, 40]) if c.rng.random() < .98 else 300
        ts = rand_times(c.rng, m, 10**9)
        if c.rng.random() < .05:  # a long block of one timestamp
            ts = [min(t, ts[m // 4]) if t < ts[3 * m // 4] else t for t in ts]
        f = 2.0 ** c.rng.choice([0, 0, 0, 0, -24, 16])
        p, px = 100.0, []
        for _ in range(m):
            p = max(1.0, p + c.rng.choice([0, 0, .25, -.25, .5, -.5, 1, -1, 3, -3]))
            px.append(p * f)
        lead = c.rng.choice([0, 0, 1, m // 2])
        sg = [float("nan") if i < lead or c.rng.random() < .25 else c.rng.choice([.001, .002, .004, .01]) for i in range(m)]
        if all(x != x for x in sg):
            sg[-1] = .002
        rnd.append(dict(cfg=cfg("cusum", vk.num(c.rng.choice([1.0, 2.0, 2.0, .5])), vk.num(c.rng.choice([5e-4, .003, .01]))), tr=tr(ts, px, [1] * m, sg)))
    bind(c, docs + rnd, rnd + docs[::29], "CUSUM bars")
    return dict(assumptions=["an accumulated move within 1e-9 of the threshold may close the bar or not (binary64 logarithms)",
                             "at least one volatility value is known"])


if __name__ == "__main__":
    which = sys.argv.pop(1)
    vk.main({"C01": time_bars, "C02": threshold_bars, "C03": cusum_bars}[which], which)
