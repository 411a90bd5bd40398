"""C19 no look-ahead, C20 backends agree, C23-C25 values of the indicators (Indicators.tla)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
import vk
from barindex import S

MC = '''SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS MaxN = {n}
 Group = "{g}"
 Emits = TRUE
INVARIANTS NoLookAhead Bounded PrintRun
'''
DAY = 86400 * 10**9
T0 = 1699920000 * 10**9  # a midnight
num = vk.num


def times(rng, n, kind):
    if kind == "day":  # bars of a few hours, some days missing, some at midnight
        step = rng.choice([6 * 3600, 4 * 3600, 15 * 60, 3600]) * 10**9
        t, out = T0 + rng.choice([0, 0, step, 30 * 10**9]), []
        twins = rng.random() < .25
        for _ in range(n):
            out.append(t)
            if twins and rng.random() < .15:
                continue
            t += step
            if rng.random() < .05:
                t = (t // DAY + rng.choice([1, 2])) * DAY
            elif rng.random() < .03:
                t += rng.choice([step, 45 * 10**9])
        return out
    s = rng.choice([10**9, 60 * 10**9, 10**6, 10**6 + 1, 7 * 10**9, 900 * 10**9, 3600 * 10**9, 1_000_001_000, 1_001 * 10**6])
    t, out = T0 + rng.choice([0, 1, 12345678, 10**6, rng.randrange(0, 7 * DAY)]), []
    twins = rng.random() < .25  # bars that close at the same time, as tick and volume bars may
    for _ in range(n):
        out.append(t)
        if twins and rng.random() < .3:
            continue
        t += s * rng.choice([1, 1, 1, 1, 2, 5]) + (rng.choice([0, 1]) if rng.random() < .1 else 0)
    return out


def prices(rng, n, decimal=.2):
    """Quarter steps, with flat and rising stretches."""
    p, out, mode = rng.choice([5., 20., 40., 1000.]), [], 0
    for _ in range(n):
        if rng.random() < .15:
            mode = rng.choice([0, 0, 0, 1, 2, 3])
        p += {0: rng.choice([-1, -.5, -.25, 0, .25, .5, 1, 2, -2]), 1: 0, 2: rng.choice([.25, .5, 1]), 3: -rng.choice([.25, .5, 1])}[mode]
        p = max(p, .25)
        out.append(p)
    w = rng.random()  # at times on a decimal grid: no step, mean or spread of it is a binary fraction
    if w < decimal * .6:
        out = [round(65000 + x * .4, 1) for x in out]
    elif w < decimal:
        out = [round(x * .04 + 7.13, 2) for x in out]
    return out


def geometric(rng, n):
    """Dyadic ratios from bar to bar, so that simple returns are exact."""
    p, out = 2.0**20, []
    for _ in range(n):
        out.append(p)
        q = p * rng.choice([1, 1, 2, .5, 1.5, .75, 1.25] if rng.random() < .9 else [1])
        p = q if 1 <= q <= 2.0**40 and (q * 2**8).is_integer() else p
    return out


def returns(rng, n, decimal=.15):
    if rng.random() < decimal:  # decimal ones, with still stretches
        out = []
        for _ in range(n):
            out.append(rng.choice([0, .1, -.1, .3, .07, -.0123]) if not out or rng.random() < .6 else out[-1])
        return out
    return [rng.choice([0, .125, -.125, .25, -.25, .5, -.5, .0625, .375, -.375]) for _ in range(n)]


def volumes(rng, n):
    out, quiet = [], 0
    for _ in range(n):
        quiet = quiet - 1 if quiet > 0 else (rng.choice([2, 5, 9]) if rng.random() < .06 else 0)
        out.append(0. if quiet else rng.choice([0, .25, 1, 2.5, 3, 7, 100, .5]))
    if rng.random() < .15:
        out = [round(x * .3 + (.1 if x else 0), 3) for x in out]
    return out


def holes(rng, s, p=.12):
    if rng.random() < .5:
        return s
    s = [float("nan") if rng.random() < p else x for x in s]
    if rng.random() < .4:
        for i in range(min(len(s), rng.choice([1, 2, 5]))):
            s[i] = float("nan")
    return s


def candles(rng, n):
    c = prices(rng, n)
    o = [c[0]] + c[:-1]
    h = [max(a, b) + rng.choice([0, 0, .25, .5, 1]) for a, b in zip(o, c)]
    l = [max(.125, min(a, b) - rng.choice([0, 0, .25, .5, 1])) for a, b in zip(o, c)]
    return o, h, l, c


def walk(rng, n):
    """Prices off any grid of ratios, with long trends and still stretches."""
    p, out, mode = rng.choice([50., 1000.]), [], 0
    for _ in range(n):
        if rng.random() < (.08 if n < 50 else .01):
            mode = rng.choice([0, 0, 1, 2, 3])
        p *= 1 + {0: rng.uniform(-.02, .02), 1: rng.uniform(0, .02), 2: -rng.uniform(0, .02), 3: 0}[mode]
        p = round(p, 2)
        out.append(p)
    return out


def case(rng, t, short=False, long=0):
    n = long or rng.choice([1, 2, 3, 5, 8, 13, 21, 30])
    w = rng.choice([2, 2, 3, 4, 5, 8, 12])
    if long and rng.random() < .6:
        w = rng.choice([20, 33, 64])
    if not short and n < 8:
        n += 8
    dt, kind = "f8", "any"
    P, R, V = lambda: prices(rng, n), lambda: holes(rng, returns(rng, n)), lambda: volumes(rng, n)
    k, b = {"window": w}, rng.random() < .5
    if t in ("Lag", "Return", "ROC", "BarDuration", "VWAPDistance"):
        k = {"periods": rng.choice([1, 1, 2, 3, w, n - 1 or 1, n + 2])}
        X = [P()]
        if t in ("Return", "VWAPDistance"):
            k["is_log"] = b
        if t == "VWAPDistance":
            k["periods"] = w
            X = [P(), V()]
        elif t != "BarDuration" and rng.random() < .4:
            X = [holes(rng, P())]
        if t == "ROC" and rng.random() < .3:
            dt, X = "i8", [[float(int(x) + 1) for x in P()]]
    elif t == "ReturnT":
        k = {"window": str(rng.choice([1000, 10**6, 10**9, 2 * 10**9, 60 * 10**9, 300 * 10**9, 3600 * 10**9, 5 * 10**6, 1800 * 10**9])), "is_log": b}
        X = [P()]
    elif t in ("PctChange", "RSIWilder", "BollingerPercentB", "TrendSlope", "MeanReversionZScore", "SMA", "DailyGap", "Identity", "TimeCues", "BarRate"):
        X = [P()]
        if t == "BollingerPercentB":
            k["num_std"] = num(rng.choice([1, 2, 2.5, .5]))
        if t in ("TrendSlope", "MeanReversionZScore", "SMA", "PctChange", "BollingerPercentB"):
            X = [holes(rng, X[0])]
        if t == "PctChange":
            k["window"] = rng.choice([1, 1, 2, 3, w])
            if rng.random() < .3:
                X = [V()]
        if t == "SMA" and rng.random() < .4:
            k["window"] = rng.choice([1, w])
            dt, X = rng.choice([("i8", [[float(int(x)) for x in P()]]), ("f4", [V()])])
        if t == "RSIWilder":
            k["window"] = rng.choice([1, w, 14])
        if t in ("DailyGap", "TimeCues"):
            k = {"none": True}
            kind = "day"
        if t == "Identity":
            k = {"none": True}
        if t == "BarRate":
            k = {"window": str(rng.choice([10**9, 60 * 10**9, 90 * 10**9, 3600 * 10**9, 900 * 10**9, 1_000_001_000, 3_000_003_000, 1_001 * 10**6]))}
    elif t == "StochK" or t == "ADX":
        k = {"length": w}
        X = list(candles(rng, n)[1:])
    elif t == "ATR":
        k.update(ema_based=b, normalize=rng.random() < .5)
        X = list(candles(rng, n)[1:])
        if rng.random() < .4:
            for i in range(n):
                if rng.random() < .15:
                    for s in X:
                        s[i] = float("nan")
        elif rng.random() < .5:  # one of the three missing
            X = [holes(rng, s) for s in X]
    elif t in ("ZScore", "BurstRatio", "FlowAcceleration"):
        X = [holes(rng, P() if t == "ZScore" else V()) if t != "FlowAcceleration" else V()]
        if t == "ZScore":
            k["ddof"] = int(b)
        if t == "FlowAcceleration":
            k["recent_periods"] = rng.choice([1, 1, 2, max(1, w - 1), w])
            dt = rng.choice(["f8", "f4"])
    elif t == "DirRunLen":
        k, X = {"none": True}, [R()]
        if rng.random() < .15:
            n = 140
            X = [[.25 * rng.choice([1, 2])] * n]
            if b:
                X[0][rng.randrange(n)] = -.5
    elif t in ("ewms", "EWMA", "BarDurationEWMA"):
        k, X = {"span": rng.choice([2, 3, 5, 10])}, [R() if b or t == "ewms" else holes(rng, P())]
        if t == "EWMA" and rng.random() < .2:
            k["span"] = 1
    elif t in ("EWMST", "ewmst_mean0"):
        k, X = {"half_life": None}, [R()]
    elif t == "RealizedVolatility":
        k["is_sample"], X = b, [R()]
    elif t in ("BiPowerVariation", "KurtosisTransform", "HurstExponent"):
        X = [R()]
        if t == "KurtosisTransform":
            k["window"] = max(4, w)
        if t == "HurstExponent":
            k["window"] = rng.choice([3, 6, 8, 9, 12, 20])
            n = max(n, 21)
            X = [holes(rng, returns(rng, n, 0))]  # whether sums of returns are equal must not hinge on rounding
    elif t == "ParkinsonRange":
        k, X = {"none": True}, list(candles(rng, n)[1:3])
    elif t == "VarianceRatio14":
        k.update(ddof=int(b), ret_type=rng.choice(["log", "simple", "simple"]))
        X = [geometric(rng, n) if k["ret_type"] == "simple" else prices(rng, n, 0)]
        if rng.random() < .4:
            X = [[float("nan") if rng.random() < .06 else 0. if rng.random() < .03 else x for x in X[0]]]
    elif t == "VPIN":
        X = [holes(rng, V(), .06), holes(rng, V(), .06)]
    elif t == "PriceVolumeCorrelation":
        k["window"] = rng.choice([3, 4, 4, 5, 8])
        X = [geometric(rng, n), V()]
        if rng.random() < .15:
            X = [[2.0**(20 + i) * (1.5 if rng.random() < .3 else 1) for i in range(min(n, 18))], [float(i + rng.choice([0, .5])) * (1 if b else -1) + 40 for i in range(min(n, 18))]]
            n = len(X[0])
    elif t == "ORBBreak":
        k, kind = {"none": True}, "day"
        n = max(n, 20)
        X = list(candles(rng, n)[1:])
    elif t == "CandleShape":
        k = {"none": True}
        o, h, l, c = candles(rng, n)
        X = [o, h, l, c, [(a + b) / 2 for a, b in zip(h, l)]]
    elif t == "CUSUMTest":
        warm = rng.choice([2, 3, 3, 5, 8])
        n = max(n, rng.choice([warm + 1, warm + 2, 13, 21, 30, 42]))
        k = {"window_size": rng.choice([warm, warm + 1, warm + 2, warm + 3, 10, 14]) , "warmup_period": warm, "max_age": rng.choice([1, 3, 144, 255, 288, 300])}
        X = [walk(rng, n)]
        if rng.random() < .1:  # prices that hardly move
            s, st = rng.choice([2. ** -26, 2. ** -23, 2. ** -30]), [rng.choice([-3, -1, 0, 1, 1, 2, 5]) for _ in range(n)]
            X = [[1. + s * sum(st[:i]) for i in range(1, n + 1)]]
        elif rng.random() < .04:  # long without a break
            n, k["window_size"], k["warmup_period"] = 310, 5, 3
            X = [[50.] * 290 + walk(rng, 20)]
        elif rng.random() < .02:  # a break beyond any the scores can tell
            n, k["window_size"], k["warmup_period"] = 345, 400, 310
            X = [[50.] * 330 + [v for v in [70., 30.][b:][:1] for _ in range(15)]]
    if t in ("ewms", "EWMST") and rng.random() < .15:  # one value, then none for a while
        m = rng.randrange(0, 3)
        X = [[float("nan")] * m + [rng.choice([.1, .3, .7, -.25, .0123])] + [float("nan")] * rng.choice([3, 6, 12]) + R()]
        X, n = [X[0][:max(n, m + 4)]], max(n, m + 4)
        X[0] += [float("nan")] * (n - len(X[0]))
    if dt != "i8" and t not in ("ADX", "CUSUMTest", "HurstExponent") and rng.random() < .25:
        X = [holes(rng, c, .06) for c in X]
    size = next((k[a] for a in ("window", "length", "span", "periods") if isinstance(k.get(a), int)), 0)
    if size and rng.random() < .2:  # as long as a window or two, give or take one
        n = rng.choice([m for m in (size - 1, size, size + 1, 2 * size - 1, 2 * size, 2 * size + 1) if 0 < m <= n] or [n])
        X = [c[:n] for c in X]
    T = times(rng, n, kind)
    if t == "TimeCues" and rng.random() < .5:  # any hour, around its full minutes
        T = sorted({T0 + (rng.randrange(8 * 24) * 3600 + rng.choice([0, 59, 60, 600, 1799, 1800, 3540, 3599, rng.randrange(3600)])) * 10**9
                    + rng.choice([0, 0, 10**9 - 1]) for _ in range(n)})
        n, X = len(T), [X[0][:len(T)]]
    if "half_life" in k:  # weights that do not vanish within one step
        seen = [T[0]] + [x for x, v in zip(T, X[0]) if v == v] + [T[-1] + 10**9]
        k["half_life"] = str(max(max(b - a for a, b in zip(seen, seen[1:])) // 10, 1000) * rng.choice([1, 2, 5, 30]))
    if t == "BurstRatio" and rng.random() < .3:
        dt = "f4"
    cuts = sorted({m for m in (1, 2, k.get("warmup_period", 0) + 1, k.get("window") if isinstance(k.get("window"), int) else 3, n // 2, n - 1, rng.randrange(1, n + 1)) if m and 0 < m < n})
    pairs = [m for m in range(1, n) if T[m] == T[m - 1]]
    if pairs:  # between two bars of the same time
        cuts = sorted({*cuts, *rng.sample(pairs, min(2, len(pairs)))})
    X, dt, extra = magnitude(rng, t, k, X, dt)
    X, dt, dts = kinds(rng, t, X, dt, extra)
    if dts:
        extra["dts"] = dts
    # the resolution (or zone) of the index is no part of the times it holds
    ix = rng.choice([u for u, m in (("utc", 1), ("us", 1000), ("ms", 10**6), ("s", 10**9)) if all(x % m == 0 for x in T)]) if rng.random() < (.6 if t in ("ReturnT", "EWMST", "ewmst_mean0", "BarRate", "TimeCues", "DailyGap") else .25) else ""
    return dict(t=t, k=k, X=[vk.nums(c) for c in X], T=[str(x) for x in T], dt=dt, cuts=cuts, ix=ix, **extra)


def kinds(rng, t, X, dt, extra):
    """Whole columns of integers (counts of trades), amounts in single precision as the bar builders give them."""
    if dt != "f8" or extra or t in ("ewms", "ewmst_mean0", "DirRunLen") or rng.random() < .8:
        return X, dt, []
    if t in OWN | {"VPIN"} and rng.random() < .7:
        own = range(len(X)) if t == "VPIN" else [1]
        if all(v != v or float(np.float32(v)) == v for j in own for v in X[j]):
            return X, "f4", ["f4" if j in own else "f8" for j in range(len(X))]
    X = [[x * 8. for x in c] for c in X]
    dts = ["i8" if all(x.is_integer() and abs(x) < 2**53 for x in c) and rng.random() < .8 else "f8" for c in X]
    return X, "f8", dts


# how an indicator's values grow with its column's (not listed: not at all)
DEGREE = {"Lag": 1, "Identity": 1, "SMA": 1, "EWMA": 1, "ewms": 1, "EWMST": 1, "ewmst_mean0": 1, "RealizedVolatility": 1, "BiPowerVariation": 2}
OWN = {"VWAPDistance", "PriceVolumeCorrelation"}  # columns of two kinds


def magnitude(rng, t, k, X, dt):
    """Columns of coins worth millionths, returns of a basis point, amounts of billions: powers of two, which keep every tie."""
    r = rng.random()
    if r < .72 or t == "DirRunLen" or dt == "i8":
        return X, dt, {}
    e = rng.choice([-24, -16, -12, -8, 10, 16])
    es = [rng.choice([-20, 16, 0]) if t in OWN and j else e for j in range(len(X))]
    X = [[x * 2.0 ** s for x in c] for c, s in zip(X, es)]
    d = DEGREE.get(t, 1 if t == "ATR" and not k.get("normalize") else 0)
    base = 1e-6 if t == "VPIN" or dt == "f4" or t in ("ewms", "EWMST") else 1e-8
    return X, dt, {"tiny": num(base * 2.0 ** (e * d))}


# what a transform is documented to do when it is not told: its parameters (those not listed must be given), its columns
HLC, CV = ["high", "low", "close"], ["close", "volume"]
BARE = {"Identity": ({}, ["close"]), "Lag": ({"periods": 1}, ["close"]), "ReturnT": ({"window": "1000", "is_log": False}, ["close"]),
        "Return": ({"periods": 1, "is_log": False}, ["close"]), "ROC": ({}, ["close"]), "PctChange": ({}, ["close"]),
        "RSIWilder": ({"window": 14}, ["close"]), "StochK": ({"length": 14}, HLC), "EWMST": ({}, ["y"]), "ZScore": ({"ddof": 0}, []),
        "VWAPDistance": ({"is_log": False}, CV), "TimeCues": ({}, ["close"]), "RealizedVolatility": ({"is_sample": False}, ["ret"]),
        "BollingerPercentB": ({"num_std": "2"}, ["close"]), "ParkinsonRange": ({}, ["high", "low"]), "SMA": ({}, ["x"]),
        "FlowAcceleration": ({}, ["volume"]), "CUSUMTest": ({"window_size": 50, "warmup_period": 30, "max_age": 144}, ["close"]),
        "ATR": ({"window": 14, "ema_based": False, "normalize": False}, HLC), "PriceVolumeCorrelation": ({"window": 8}, CV),
        "VPIN": ({"window": 32}, ["volume_buy", "volume_sell"]), "VarianceRatio14": ({"window": 32, "ret_type": "log", "ddof": 0}, ["close"]),
        "KurtosisTransform": ({"window": 32}, ["ret1"]), "TrendSlope": ({"window": 24}, ["close"]), "ADX": ({"length": 14}, HLC),
        "MeanReversionZScore": ({"window": 48}, ["close"]), "DailyGap": ({}, ["close"]), "ORBBreak": ({}, HLC), "BarRate": ({}, ["close"]),
        "CandleShape": ({}, ["open", "high", "low", "close", "vwap"]), "HurstExponent": ({"window": 24}, ["ret1"]),
        "BarDurationEWMA": ({"span": 20}, ["close"]), "BarDuration": ({"periods": 1}, ["close"]), "BiPowerVariation": ({"window": 12}, ["ret1"]),
        "DirRunLen": ({}, ["ret1"])}


def bare(rng, t, causal):
    """A case whose transform is given no more than it must be."""
    k, cols = BARE[t]
    size = max([v for v in k.values() if isinstance(v, int)] + [6])
    x = case(rng, t, long=rng.choice([size + 1, size + 9, 2 * size + 3]) if t != "CUSUMTest" else rng.choice([40, 70]))
    x["k"].update(k)
    x.update(bare=sorted(k), cols=cols, cuts=x["cuts"][-2:] if causal else [])
    return x


GROUPS = {
    "momentum": ["Lag", "Return", "ReturnT", "ROC", "PctChange", "RSIWilder", "StochK", "ZScore", "BurstRatio", "VWAPDistance", "TrendSlope", "ADX",
                 "MeanReversionZScore", "DirRunLen"],
    "volatility": ["ewms", "EWMST", "ewmst_mean0", "RealizedVolatility", "BollingerPercentB", "ParkinsonRange", "ATR", "VarianceRatio14",
                   "BiPowerVariation", "KurtosisTransform", "HurstExponent"],
    "flow": ["SMA", "EWMA", "FlowAcceleration", "VPIN", "PriceVolumeCorrelation", "TimeCues", "BarDuration", "BarDurationEWMA", "BarRate",
             "DailyGap", "ORBBreak", "CandleShape", "Identity"],
    "breaks": ["CUSUMTest"]}
TWO = ["PctChange", "RSIWilder", "RealizedVolatility", "SMA", "EWMA", "PriceVolumeCorrelation", "VPIN"]
ALL = sum(GROUPS.values(), [])
PLAN = {"C19": ("all", ALL, "causal_"), "C20": ("all", ALL, "backends_"), "C23": ("momentum", GROUPS["momentum"], "value_"),
        "C24": ("volatility", GROUPS["volatility"], "value_"), "C25": ("flow", GROUPS["flow"], "value_"), "C26": ("breaks", GROUPS["breaks"], "value_")}


def check(c):
    group, names, prefix = PLAN[c.pid]
    docs = []
    for g in (["momentum", "volatility", "flow", "breaks"] if group == "all" else [group]):
        n = (4 if group == "all" else 5) if c.quick else 6
        r = c.mc("MCIndicators", MC.format(n=n, g=g), name="a transform reads bars: " + g)
        byk = {}
        for d in sorted(r["docs"], key=lambda d: vk.json.dumps(d, sort_keys=True)):
            byk.setdefault((d["t"], vk.json.dumps(d["k"])), []).append(d)
        cap = (40 if group == "all" else 120) if c.quick else 2000
        for (t, _), ds in sorted(byk.items()):
            if t in names:
                docs += ds[::-(-len(ds) // cap)]
    for k, d in enumerate(docs):
        m = len(d["T"])
        d.update(dt="f8", ix="", cuts=[1 + k % (m - 1)] if c.pid in ("C19",) else [])
    each = (60 if c.pid == "C19" else 40 if c.pid == "C20" else 90) if c.quick else 1200
    rnd = []
    for t in names:
        for i in range(each * (4 if c.pid == "C26" else 3 if c.pid == "C20" and t in TWO else 1)):
            x = case(c.rng, t, short=i % 4 == 0)
            if c.pid != "C19":
                x["cuts"] = []
            rnd.append(x)
        for i in range(2 if c.quick else 20):  # longer than any counter of 8 bits
            x = case(c.rng, t, long=c.rng.choice([270, 300]))
            x["cuts"] = x["cuts"][-2:] if c.pid == "C19" else []
            rnd.append(x)
        for i in range((3 if c.quick else 40) if t in BARE else 0):
            rnd.append(bare(c.rng, t, c.pid == "C19"))
    runs = []
    jit = rnd[::2] + docs[::9]
    for j, cs in ((False, docs + rnd), (True, jit)):
        outs = c.real("indicators", cs, jit=j, procs=7 if not j else 4)
        runs += [dict(**{"in": x}, out=o, jit=j) for x, o in zip(cs, outs)]
    c.judge("IndTrace", "indicators", runs, label="indicator columns", only=lambda s: s.startswith((prefix, "pv_shortcut_" + prefix.rstrip("_"))))
    if not c.viol:
        good = next(r for r in runs if r["in"]["t"] == ("RealizedVolatility" if group in ("all", "volatility") else "ROC" if group == "momentum" else "CUSUMTest" if group == "breaks" else "SMA")
                    and len(r["in"]["T"]) > 9 and r["out"]["nb"]["cols"][0][-1] not in ("nan", "0") and (r["out"]["cuts"] or c.pid != "C19"))
        last = lambda o, v: o["cols"][0].__setitem__(-1, v)
        probes = [("value changed", lambda r: last(r["out"]["nb"], num(vk.flt(r["out"]["nb"]["cols"][0][-1]) * 1.0001))),
                  ("value missing", lambda r: last(r["out"]["nb"], "nan")), ("bar lost", lambda r: r["out"]["pd"]["cols"][0].pop())]
        if c.pid == "C19":
            probes += [("a cut differs", lambda r: r["out"]["cuts"][-1]["cols"][0].__setitem__(-1, "1/3"))]
        if c.pid == "C20":
            probes += [("names differ", lambda r: r["out"]["nb"]["names"].__setitem__(0, "x"))]
        c.canary("IndTrace", good, probes)
    return dict(assumptions=["ADX and the CUSUM test are given complete columns",
                             "prices are positive multiples of a power of two, so that zero variance and equal extremes are decided exactly; "
                             "binary64 results are compared to 1e-7 relative, binary32 ones to 2e-5"])


if __name__ == "__main__":
    which = sys.argv.pop(1)
    vk.main(check, which)
