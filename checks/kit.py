"""C21 what a list of features builds, C22 a saved list builds the same, C28 arithmetic on features (FeatureKit.tla)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vk
import indicators as ind

MC = '''SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS MaxF = {n}
 Emits = TRUE
INVARIANTS Confluent Complete Refusal PrintRun
'''
num = vk.num
COLS = ["open", "high", "low", "close", "vwap", "volume", "volume_buy", "volume_sell", "ret1"]
POSITIVE = {"open", "high", "low", "close", "vwap"}
C = lambda n: {"ref": 0, "j": COLS.index(n) + 1}
REFER = ("Lag", "SMA", "EWMA", "Return", "ROC")
COLLIDE = "collision"


def frame(rng, n):
    """Dyadic bars: closes whose steps are exact ratios, so that zero variance is decided exactly."""
    p, c = 64., []
    for _ in range(n):
        c.append(p)
        q = p * rng.choice([1, 1, 2, .5, 1.5, .75, 1.25])
        p = q if 1 <= q <= 4096 and (q * 256).is_integer() else p
    o = [c[0]] + c[:-1]
    h = [max(a, b) + rng.choice([0, .25, 1]) for a, b in zip(o, c)]
    l = [max(.125, min(a, b) - rng.choice([0, .25, .5])) for a, b in zip(o, c)]
    b, s = ind.volumes(rng, n), ind.volumes(rng, n)
    return [o, h, l, c, [(x + y) / 2 for x, y in zip(h, l)], [x + y for x, y in zip(b, s)], b, s, ind.returns(rng, n)]


class Gen:
    """Expressions whose values do not hinge on rounding: only transforms that are continuous where they are used."""
    def __init__(self, rng, refs, eager=.45):
        self.rng, self.refs, self.ks, self.eager = rng, refs, {}, eager

    def k(self, key, f):
        """Two transforms of one name must not mean different things within one list."""
        return self.ks.setdefault(key, f())

    def src(self, positive=False):
        r = self.rng
        if self.refs and r.random() < self.eager:
            c = [q for q in self.refs if q["pos"] or not positive]
            if c:
                return r.choice(c)["s"]
        return C(r.choice(sorted(POSITIVE) if positive else COLS))

    def smooth(self, positive=False):
        """A transform that may read anything, and its sign."""
        r, t = self.rng, self.rng.choice(["Lag", "SMA", "EWMA", "Identity", "Return", "ROC"])
        if t in ("Return", "ROC") and positive:
            t = "SMA"
        w = r.choice([2, 3, 5])
        if t in ("Return", "ROC"):
            k = {"periods": r.choice([1, 2])}
            if t == "Return":
                k["is_log"] = self.k(("Return",), lambda: r.random() < .5)
            return {"op": "tf", "t": t, "k": k, "src": [self.src(True)]}
        k = {"Lag": {"periods": r.choice([1, 2, 4])}, "SMA": {"window": w}, "EWMA": {"span": w}, "Identity": {"none": True}}[t]
        return {"op": "tf", "t": t, "k": k, "src": [self.src(positive)]}

    def leaf(self):
        """Any transform, on columns of the frame, with parameters other than the default ones."""
        r = self.rng
        t = r.choice(["ReturnT", "PctChange", "RSIWilder", "StochK", "EWMST", "ZScore", "BurstRatio", "VWAPDistance", "TimeCues", "RealizedVolatility",
                      "BollingerPercentB", "ParkinsonRange", "FlowAcceleration", "ATR", "PriceVolumeCorrelation", "VPIN", "VarianceRatio14",
                      "KurtosisTransform", "TrendSlope", "ADX", "MeanReversionZScore", "BarRate", "CandleShape", "HurstExponent",
                      "BarDurationEWMA", "BarDuration", "BiPowerVariation", "DirRunLen", "ORBBreak", "DailyGap", "Return", "ROC"])
        w, b = r.choice([2, 3, 4, 5, 8]), r.random() < .5
        hlc = [C("high"), C("low"), C("close")]
        k, src = {"window": w}, [C("close")]
        if t == "ReturnT":
            k = self.k(t, lambda: {"window": str(r.choice([60 * 10**9, 90 * 10**9, 300 * 10**9, 3600 * 10**9, 1_000_001_000, 1_001 * 10**6])), "is_log": b})
        elif t == "RSIWilder":
            k = {"window": r.choice([2, 5, 9])}
        elif t in ("StochK", "ADX"):
            k, src = {"length": w}, hlc
        elif t == "EWMST":
            k, src = {"half_life": str(r.choice([30, 60, 150]) * 10**9)}, [C("ret1")]
        elif t == "ZScore":
            k["ddof"] = self.k(t, lambda: r.choice([0, 1]))
        elif t in ("BurstRatio", "SMA"):
            src = [C("volume")]
        elif t == "VWAPDistance":
            k, src = {"periods": w, "is_log": self.k(t, lambda: b)}, [C("close"), C("volume")]
        elif t in ("TimeCues", "DailyGap"):
            k = {"none": True}
        elif t == "RealizedVolatility":
            k["is_sample"], src = self.k(t, lambda: b), [C("ret1")]
        elif t == "BollingerPercentB":
            k["num_std"] = self.k(t, lambda: num(r.choice([1, 2.5, .5])))
        elif t == "ParkinsonRange":
            k, src = {"none": True}, hlc[:2]
        elif t == "FlowAcceleration":
            k, src = {"window": w, "recent_periods": r.choice([1, 2])}, [C("volume")]
        elif t == "ATR":
            k.update(ema_based=b, normalize=r.random() < .5)
            src = hlc
        elif t == "PriceVolumeCorrelation":
            k["window"], src = 8, [C("close"), C("volume")]
        elif t == "VPIN":
            src = [C("volume_buy"), C("volume_sell")]
        elif t == "VarianceRatio14":
            k = self.k(t, lambda: dict(window=w, ddof=int(b), ret_type="simple"))
        elif t in ("KurtosisTransform", "HurstExponent", "BiPowerVariation", "DirRunLen"):
            src = [C("ret1")]
            k = {"none": True} if t == "DirRunLen" else {"window": max(4, w)} if t == "KurtosisTransform" else {"window": 9} if t == "HurstExponent" else k
        elif t == "BarRate":
            k = self.k(t, lambda: {"window": str(r.choice([60 * 10**9, 90 * 10**9, 300 * 10**9, 3600 * 10**9, 1_000_001_000, 1_001 * 10**6]))})
        elif t == "CandleShape":
            k, src = {"none": True}, [C("open"), C("high"), C("low"), C("close"), C("vwap")]
        elif t == "BarDurationEWMA":
            k = {"span": w}
        elif t in ("BarDuration", "ROC", "Return"):
            k = {"periods": r.choice([1, 2, 3])}
            if t == "Return":
                k["is_log"] = self.k(("Return",), lambda: b)
        elif t == "ORBBreak":
            k, src = {"none": True}, hlc
        return {"op": "tf", "t": t, "k": k, "src": src}

    def chain(self):
        r = self.rng
        a = self.smooth(True)
        steps, pos = [], a["t"] not in ("Return", "ROC")
        for _ in range(r.choice([1, 1, 2])):
            t = r.choice(["Lag", "SMA", "EWMA"] + (["Return"] if pos else []))
            pos = pos and t != "Return"
            k = {"Lag": {"periods": r.choice([1, 2])}, "SMA": {"window": r.choice([2, 3])}, "EWMA": {"span": r.choice([2, 4])},
                 "Return": {"periods": 1, "is_log": self.k(("Return",), lambda: r.random() < .5)}}[t]
            steps.append({"t": t, "k": k, "inp": r.choice(["prev", "prev", "prev", "close", "volume", "x"])})
        return {"op": "chain", "t": a["t"], "k": a["k"], "src": a["src"], "steps": steps}

    def ext(self, name):
        o = self.rng.choice(["square", "add", "maximum", "subtract", "clip", "modf", "sqrt"])
        src = [C(self.rng.choice(sorted(POSITIVE)))] if o in ("sqrt", "modf") else [self.src()]
        if o in ("maximum", "subtract"):
            src.append(self.src())
        return {"op": "ext", "o": o, "c": num(self.rng.choice([.25, -1, 2, .5])), "src": src, "np": self.rng.random() < .5, "out": name}

    def expr(self, d, positive=False):
        """An expression of depth d; positive: its values are (where there are any)."""
        r = self.rng
        if d == 0 or r.random() < .15:
            return self.smooth(positive)
        o = r.choice(["add", "sub", "mul", "div", "min", "max", "const", "const", "const", "un", "un", "un"])
        if o == "div":
            return {"op": "bin", "o": o, "l": self.expr(d - 1, positive), "r": self.expr(d - 1, True)}
        if o in ("add", "sub", "mul", "min", "max"):
            if positive and o == "sub":
                o = "add"
            return {"op": "bin", "o": o, "l": self.expr(d - 1, positive), "r": self.expr(d - 1, positive)}
        if o == "const":
            c = r.choice(["1", "2", "3", "1/2", "1/4", "5/4"] + ([] if positive else ["-1", "-3/2", "0"]))
            o = r.choice(["add", "mul", "div", "max"] + ([] if positive else ["sub", "min", "rsub"]))
            if o == "div" and c == "0":
                c = "2"
            if r.random() < .12:
                return {"op": "const", "o": "rdiv", "c": c, "e": self.expr(d - 1, True), "flip": False}
            return {"op": "const", "o": o, "c": c, "e": self.expr(d - 1, positive), "flip": r.random() < .4}
        o = r.choice(["abs", "square", "clip", "rmean", "rsum", "ema", "emar", "lag", "log1p", "log", "sqrt", "exp", "rstd"])
        p = {"w": r.choice([2, 3, 5]) if o != "lag" else r.choice([1, 2, 3])}
        if o == "clip":
            p = {"lo": r.choice(["", "-1/4", "0", "1/2", "1"]), "hi": r.choice(["", "2", "7/2"])}
            if p["lo"] in ("", "-1/4") and r.random() < .3:
                p["hi"] = "0"
            if positive:
                p = {"lo": r.choice(["", "1/2"]), "hi": r.choice(["", "2", "7/2"])}
        if o in ("log", "exp", "rstd") and positive:
            o = "rmean"
            p = {"w": 3}
        if o == "exp":  # of something bounded
            e = {"op": "un", "o": "clip", "p": {"lo": "-3", "hi": "3"}, "e": self.expr(d - 1), "pre": ""}
        else:
            e = self.expr(d - 1, positive or o in ("log", "log1p", "sqrt"))
        return {"op": "un", "o": o, "p": p, "e": e, "pre": "pre%d" % r.randrange(10**6) if r.random() < .12 else ""}


def twin(rng, ex, positive):
    """A copy of an expression that differs in one detail, or None."""
    ex = vk.json.loads(vk.json.dumps(ex))
    spots = []

    def walk(e):
        if e["op"] == "bin":
            spots.extend([(e, "swap"), (e, "op")] if positive or e["o"] != "div" else [])
            walk(e["l"]), walk(e["r"])
        elif e["op"] == "const":
            spots.extend([(e, "c")] + ([(e, "side")] if positive or e["o"] not in ("div", "rdiv") else []))
            walk(e["e"])
        elif e["op"] == "un":
            e["pre"] = ""
            spots.append((e, "p"))
            walk(e["e"])
        elif e["op"] == "tf" and e["t"] in ("Lag", "SMA", "EWMA", "ROC"):
            spots.extend([(e, "k"), (e, "src")])
    walk(ex)
    if not spots:
        return None
    e, how = rng.choice(spots)
    if how == "swap":
        e["l"], e["r"] = e["r"], e["l"]
    elif how == "op":
        o = {"add": "sub", "sub": "add", "mul": "min", "div": "mul", "min": "max", "max": "min"}
        e["o"] = o[e["o"]]
    elif how == "c":
        e["c"] = rng.choice([e["c"] + ("001/1000" if "/" not in e["c"] else "0"), num(vk.flt(e["c"]) + 2.**-22), num(-vk.flt(e["c"]) or 1.)])
    elif how == "side":
        e["o"], e["flip"] = {"sub": "rsub", "rsub": "sub", "rdiv": "div", "div": "rdiv", "add": "mul", "mul": "add", "min": "max", "max": "min"}[e["o"]], False
        if e["o"] == "div" and vk.flt(e["c"]) == 0:
            e["c"] = "2"
    elif how == "p":
        if e["o"] == "clip":
            e["p"] = rng.choice([dict(e["p"], lo="3/8"), dict(e["p"], hi="29/8"), dict(e["p"], lo="", hi="9/4")])
        elif "w" in e["p"] and e["o"] in ("rmean", "rsum", "ema", "emar", "lag", "rstd"):
            if rng.random() < .6:
                e["p"] = {"w": e["p"]["w"] + 1}
            else:
                e["o"] = {"rmean": "rsum", "rsum": "rmean", "ema": "emar", "emar": "ema"}.get(e["o"], "rmean")
        else:
            e["o"] = {"abs": "square", "square": "abs"}.get(e["o"], e["o"])
    elif how == "k":
        e["k"] = {a: b + 1 for a, b in e["k"].items()}
    else:
        e["src"] = [C(rng.choice([q for q in sorted(POSITIVE) if C(q) != e["src"][0]]))]
    return ex


def outs(ex):
    return {"TimeCues": 9, "CandleShape": 4, "ORBBreak": 2}.get(ex.get("t"), 1) if ex["op"] == "tf" else 2 if ex["op"] == "ext" and ex["o"] == "modf" else 1


def case(rng, pid):
    n = rng.choice([6, 9, 14, 20])
    nf = rng.choice([1, 1, 2]) if pid == "C28" else rng.choice([1, 2, 3, 4, 5])
    g, kit = Gen(rng, []), []
    order = rng.sample(range(nf), nf) if rng.random() < .6 else list(range(nf))
    for m in range(nf):
        a = rng.random()
        pos = False
        if pid == "C28" or a < .3:
            pos = rng.random() < .3
            ex = g.expr(rng.choice([1, 2, 3]), pos)
        elif a < .65:
            ex = g.leaf()
        elif a < .8:
            ex = g.chain()
        elif a < .9:
            ex = g.ext("ext%d_%d" % (m, rng.randrange(100)))
        else:
            pos = rng.random() < .5
            ex = g.smooth(pos)
        if ex.get("t") == "Identity" and ex["op"] == "tf":  # a column under its own name: no reference to or by it
            ex["src"] = [C("close")]
        kit.append({"ex": ex, "custom": ["custom%d_%d" % (m, j) for j in range(outs(ex))] if rng.random() < .3 else []})
        if ex["op"] != "tf" or ex["t"] in REFER:
            g.refs.append({"s": {"ref": m + 1, "j": rng.randrange(outs(ex)) + 1}, "pos": pos})
    return arranged(rng, kit, order, rng.choice(["defined", "topo"]), n)


def deep(rng):
    """Lists whose features stand on each other, some of them on two, in any order."""
    nf, g, kit = rng.choice([3, 4, 5, 6]), Gen(rng, [], .8), []
    for m in range(nf):
        w, pos = rng.random(), rng.random() < .6
        if w < .4 or not g.refs:
            ex = g.smooth(pos)
            while ex["t"] == "Identity":
                ex = g.smooth(pos)
        elif w < .65:
            ex = {"op": "bin", "o": rng.choice(["add", "max", "min", "mul"]), "l": g.smooth(pos), "r": g.smooth(pos)}
        elif w < .75 and not any(q["ex"].get("t") == "VWAPDistance" for q in kit):  # its column is named after the prices alone
            ex, pos = {"op": "tf", "t": "VWAPDistance", "k": {"periods": 2, "is_log": False}, "src": [C("close"), g.src(True)]}, False
        else:
            ex, pos = g.ext("ext%d" % m), False
            if len(ex["src"]) == 2 and rng.random() < .6:
                ex["src"][0] = C(rng.choice(COLS))
        kit.append({"ex": ex, "custom": ["custom%d_%d" % (m, j) for j in range(outs(ex))] if rng.random() < .2 else []})
        if ex["op"] != "tf" or ex["t"] in REFER:
            pos = pos and not (ex["op"] == "tf" and ex["t"] in ("Return", "ROC"))
            g.refs.append({"s": {"ref": m + 1, "j": rng.randrange(outs(ex)) + 1}, "pos": pos})
    return arranged(rng, kit, rng.sample(range(nf), nf), "topo" if rng.random() < .8 else "defined", rng.choice([9, 14, 20]))


def arranged(rng, kit, order, how, n):
    """The list in that order, on some bars."""
    where = {m + 1: i + 1 for i, m in enumerate(order)}

    def move(e):
        if isinstance(e, list):
            return [move(x) for x in e]
        if isinstance(e, dict):
            return {a: (where[b] if a == "ref" and b else move(b)) for a, b in e.items()}
        return e
    kit = move([kit[m] for m in order])
    longest = max([int(w) for w in vk.re.findall(r'"half_life": "(\d+)"', vk.json.dumps(kit))] + [0])
    T = ind.times(rng, n, "any" if rng.random() < .6 else "day") if not longest else [ind.T0 + i * 10**10 + rng.choice([0, 0, 10**9]) for i in range(n)]
    return dict(kit=kit, order=how, X=[vk.nums(c) for c in frame(rng, n)], T=[str(t) for t in T], names=COLS,
                retain=rng.sample(COLS, rng.choice([0, 1, 2])), tag="")


def twins(rng):
    """Two expressions that differ in one detail only, each the other's check: as features, and within larger ones."""
    while True:
        g = Gen(rng, [])
        positive = rng.random() < .4
        a = g.expr(rng.choice([1, 1, 2]), positive)
        w = rng.random()
        if w < .1:  # operands the other way round
            a = {"op": "bin", "o": rng.choice(["sub", "sub", "div"]), "l": g.expr(rng.choice([0, 0, 1]), True), "r": g.expr(rng.choice([0, 0, 1]), True)}
            b = dict(a, l=a["r"], r=a["l"])
        elif w < .2:  # constants that differ in a late digit
            big = rng.choice([12345, 1234567, 98765432])
            a, b = ({"op": "const", "o": "sub", "c": str(big), "flip": False, "e": {"op": "const", "o": "add", "c": num(big + d), "flip": False, "e": g.smooth(True)}}
                    for d in (.25, .75))
            b["e"]["e"] = a["e"]["e"]
        else:
            b = twin(rng, a, positive)
        if b is None or b == a:
            continue
        kit = [{"ex": x, "custom": ["first", "second"][i:i + 1]} for i, x in enumerate((a, b))]
        if rng.random() < .5:
            w = rng.choice([lambda e: {"op": "un", "o": "abs", "p": {"w": 2}, "e": e, "pre": ""}, lambda e: {"op": "const", "o": "mul", "c": "3", "e": e, "flip": False},
                            lambda e: {"op": "bin", "o": "sub", "l": e, "r": {"op": "tf", "t": "SMA", "k": {"window": 2}, "src": [C("close")]}}])
            i = rng.randrange(2)
            kit[i]["ex"] = w(kit[i]["ex"])
        n = rng.choice([6, 9, 14])
        return dict(kit=kit, order=rng.choice(["defined", "topo"]), X=[vk.nums(c) for c in frame(rng, n)],
                    T=[str(ind.T0 + i * 10**10) for i in range(n)], names=COLS, retain=[], tag="")


def signed(rng):
    """Functions with a domain, of values on both sides of its border, some of them missing."""
    n = rng.choice([9, 14])
    X = frame(rng, n)
    gaps = rng.random() < .6
    for j in (3, 5):
        X[j] = [float("nan") if gaps and rng.random() < .2 else rng.choice([-2., -1., -.75, -.5, -.25, 0., .25, .5, 1., 3.]) for _ in range(n)]
    lag, other = ({"op": "tf", "t": "Lag", "k": {"periods": m}, "src": [C(s)]} for m, s in ((1, "close"), (2, "volume")))
    kit = []
    for o in rng.sample(["log1p", "log", "sqrt", "abs", "square", "clip", "clip", "ema", "emar", "rmean", "rsum", "rstd", "lag"], 3):
        p = {"w": rng.choice([2, 3, 5])}
        if o == "clip":
            p = {"lo": rng.choice(["", "-1/4", "0", "0"]), "hi": rng.choice(["", "1/2"])}
            if p["lo"] in ("", "-1/4") and rng.random() < .5:
                p["hi"] = "0"
        e = {"op": "un", "o": o, "p": p, "e": rng.choice([lag, other]), "pre": ""}
        if rng.random() < .3:
            e = {"op": "bin", "o": rng.choice(["add", "sub", "mul", "min", "max"]), "l": e, "r": rng.choice([lag, other])}
        elif rng.random() < .2:
            e = {"op": "const", "o": rng.choice(["add", "mul", "max", "min", "rsub"]), "c": rng.choice(["0", "-1", "1/4"]), "e": e, "flip": rng.random() < .4}
        kit.append({"ex": e, "custom": []})
    return dict(kit=kit, order="defined", X=[vk.nums(c) for c in X], T=[str(ind.T0 + i * 10**10) for i in range(n)], names=COLS, retain=[], tag="")


def finish(d):
    """The fields a case from the model checker leaves open."""
    has = lambda e: isinstance(e, dict) and (e.get("ref", 0) > 0 or any(has(v) for v in e.values())) or isinstance(e, list) and any(has(v) for v in e)
    for i, f in enumerate(d["kit"]):
        f["direct"] = "" if has(f["ex"]) else ["nb", "pd"][i % 2]
        if f["ex"]["op"] == "ext":
            f["ex"].setdefault("out", "ext_out%d" % i)
    float4 = any(t in vk.json.dumps(d["kit"]) for t in ('"VPIN"', '"FlowAcceleration"'))
    d["rel"] = "1/20000" if float4 else "1/1000000"
    d.setdefault("tag", "")
    return d


def collisions(rng):
    """Pairs of transforms that share a name and mean different things (a finding on record)."""
    t = lambda n, k, *src: {"op": "tf", "t": n, "k": k, "src": [C(s) for s in src]}
    pairs = {
        "Return": (t("Return", {"periods": 1, "is_log": False}, "close"), t("Return", {"periods": 1, "is_log": True}, "close")),
        "ZScore": (t("ZScore", {"window": 3, "ddof": 0}, "close"), t("ZScore", {"window": 3, "ddof": 1}, "close")),
        "BollingerPercentB": (t("BollingerPercentB", {"window": 3, "num_std": "1"}, "close"), t("BollingerPercentB", {"window": 3, "num_std": "2"}, "close")),
        "RealizedVolatility": (t("RealizedVolatility", {"window": 3, "is_sample": True}, "ret1"), t("RealizedVolatility", {"window": 3, "is_sample": False}, "ret1")),
        "VWAPDistance": (t("VWAPDistance", {"periods": 2, "is_log": False}, "close", "volume"), t("VWAPDistance", {"periods": 2, "is_log": True}, "close", "volume")),
        "StochK": (t("StochK", {"length": 3}, "high", "low", "close"), t("StochK", {"length": 3}, "high", "low", "open")),
        "BarRate": (t("BarRate", {"window": "60000000000"}, "close"), t("BarRate", {"window": "3600000000000"}, "close")),
    }
    for tag, (a, b) in pairs.items():
        n = 14
        p, q = (a, b) if rng.random() < .5 else (b, a)
        yield finish(dict(kit=[{"ex": p, "custom": ["one"]}, {"ex": q, "custom": ["two"]}], order="defined", X=[vk.nums(c) for c in frame(rng, n)],
                          T=[str(ind.T0 + i * 10**10) for i in range(n)], names=COLS, retain=[], tag=COLLIDE + " " + tag))


PREFIX = {"C21": ("build_", "collision_build"), "C22": ("load", "collision_load"), "C28": ("op",)}


def check(c):
    r = c.mc("MCFeatureKit", MC.format(n=2), name="a list of features is built")
    docs = sorted(r["docs"], key=lambda d: vk.json.dumps(d, sort_keys=True))
    if not c.quick:
        docs += c.gen("MCFeatureKit", MC.format(n=3).replace("Confluent Complete Refusal ", ""), name="lists of three features")
    cap = 500 if c.quick else 20000
    docs = [finish(d) for d in docs[::-(-len(docs) // cap)]]
    rnd = [finish(case(c.rng, c.pid)) for _ in range(400 if c.quick else 8000)]
    rnd += [finish(twins(c.rng)) for _ in range(200 if c.quick else 4000)] + [finish(signed(c.rng)) for _ in range((100 if c.pid == "C28" else 30) if c.quick else 1200)]
    rnd += [finish(deep(c.rng)) for _ in range(200 if c.quick else 4000)] if c.pid != "C28" else []
    col = list(collisions(c.rng)) if c.pid != "C28" else []
    runs = []
    jit = rnd[:60 if c.quick else 1500]
    for j, cs in ((False, docs + rnd + col), (True, jit)):
        os_ = c.real("kit", cs, jit=j, procs=7 if not j else 4)
        runs += [dict(**{"in": x}, out=o, jit=j) for x, o in zip(cs, os_)]
    c.judge("KitTrace", "kit", runs, label="feature lists", only=lambda s: s.startswith(PREFIX[c.pid]))
    if not c.viol:
        good = next(r for r in runs if len(r["in"]["kit"]) == 2 and r["out"].get("load", {}).get("cols") and r["in"]["kit"][0]["direct"]
                    and not r["in"]["tag"] and r["out"]["direct"][0]["cols"] and r["in"]["kit"][0]["ex"]["op"] in ("un", "bin", "const"))
        key = {"C21": "nb", "C22": "load", "C28": "direct"}[c.pid]

        def at(r):
            return r["out"][key] if key != "direct" else r["out"]["direct"][0]

        def value(r):
            v = at(r)["cols"][-1]["v"]
            v[-1] = "1/3" if v[-1] in ("nan", "inf", "-inf") else num(vk.flt(v[-1]) * 1.001 + .001)
        probes = [("a value changed", value), ("it raised", lambda r: at(r).__setitem__("exc", "KeyError")),
                  ("the frame changed", lambda r: at(r).__setitem__("kept", False))]
        if key != "direct":
            probes += [("a column lost", lambda r: at(r)["cols"].pop()), ("a column renamed", lambda r: at(r)["cols"][-1].__setitem__("n", "zz"))]
        if c.pid == "C22":
            probes += [("another configuration", lambda r: r["out"].__setitem__("fix", False))]
        c.canary("KitTrace", good, probes)
    return dict(assumptions=["references between features go to the columns a feature writes, under the names the library gives them",
                             "values are compared to 1e-6 (lists with single precision transforms to 5e-5)"])


if __name__ == "__main__":
    which = sys.argv.pop(1)
    vk.main(check, which)
