"""Builds, saves and loads a list of features made from expressions."""
import contextlib
import io
import json
import os
import tempfile
import numpy as np
import pandas as pd
from vk import num, flt
import finmlkit.feature.transforms as tf
from finmlkit.feature.kit import Feature, FeatureKit, Compose
from indicators import TIMED, ONE

BIN = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b,
       "min": Feature.min, "max": Feature.max}
CONST = dict(BIN, rsub=lambda a, c: c - a, rdiv=lambda a, c: c / a)
EXT = {"square": "numpy.square", "sqrt": "numpy.sqrt", "add": "numpy.add", "maximum": "numpy.maximum", "subtract": "numpy.subtract",
       "clip": "numpy.clip", "modf": "numpy.modf"}


def const(c):
    v = flt(c)
    return int(v) if v.is_integer() and "/" not in c and abs(v) % 2 == 1 else v


def transform(t, k, cols):
    k = {a: b for a, b in k.items() if a != "none"}
    if t in TIMED:
        k[TIMED[t]] = pd.Timedelta(int(k[TIMED[t]]), unit="ns")
    if "num_std" in k:
        k["num_std"] = flt(k["num_std"])
    cls = getattr(tf, t)
    return cls(input_col=cols[0], **k) if t in ONE else cls(input_cols=list(cols), **k)


def aslist(n):
    return [n] if isinstance(n, str) else list(n)


class Maker:
    def __init__(self, case):
        self.case, self.feats, self.nodes = case, {}, []
        self.exc = ""

    def source(self, s):
        return self.case["names"][s["j"] - 1] if s["ref"] == 0 else aslist(self.feature(s["ref"]).transform.output_name)[s["j"] - 1]

    def feature(self, i):
        if i not in self.feats:
            self.feats[i] = self.make(self.case["kit"][i - 1]["ex"], i)
        return self.feats[i]

    def note(self, i, f, ex):
        for j, n in enumerate(aslist(f.output_name)):
            self.nodes.append({"i": i, "n": n, "ex": ex, "j": j + 1})

    def make(self, ex, i):
        op = ex["op"]
        if op == "tf":
            f = Feature(transform(ex["t"], ex["k"], [self.source(s) for s in ex["src"]]))
        elif op == "chain":
            ts = [transform(ex["t"], ex["k"], [self.source(s) for s in ex["src"]])]
            pre = {"op": "tf", "t": ex["t"], "k": ex["k"], "src": ex["src"]}
            self.note(i, ts[0], pre)
            for m, s in enumerate(ex["steps"]):
                ts.append(transform(s["t"], s["k"], [ts[-1].output_name if s["inp"] == "prev" else s["inp"]]))
            f = Feature(Compose(*ts))
        elif op == "ext":
            cols = [self.source(s) for s in ex["src"]]
            a, kw = [], {}
            if ex["o"] == "add":
                a = [flt(ex["c"])]
            if ex["o"] == "clip":
                kw = {"a_min": flt(ex["c"]), "a_max": flt(ex["c"]) + 1}
            outs = [ex["out"], ex["out"] + "_i"] if ex["o"] == "modf" else ex["out"]
            f = Feature(tf.ExternalFunction(EXT[ex["o"]], cols if len(cols) > 1 else cols[0], outs, args=a, kwargs=kw, pass_numpy=ex["np"]))
        elif op == "bin":
            f = BIN[ex["o"]](self.make(ex["l"], i), self.make(ex["r"], i))
        elif op == "const":
            e, c = self.make(ex["e"], i), const(ex["c"])
            f = CONST[ex["o"]](c, e) if ex.get("flip") and ex["o"] in ("add", "mul", "min", "max") else CONST[ex["o"]](e, c)
        else:
            e, p, o = self.make(ex["e"], i), ex["p"], ex["o"]
            if ex.get("pre"):
                e.name = ex["pre"]
            w = p.get("w")
            f = {"abs": lambda: abs(e) if ex.get("pre") else e.abs(), "log": lambda: e.log(), "log1p": lambda: e.log1p(), "exp": lambda: e.exp(),
                 "square": lambda: e.square(), "sqrt": lambda: e.sqrt(),
                 "clip": lambda: e.clip(const(p["lo"]) if p["lo"] else None, const(p["hi"]) if p["hi"] else None),
                 "rmean": lambda: e.rolling_mean(w), "rsum": lambda: e.rolling_sum(w), "rstd": lambda: e.rolling_std(w),
                 "ema": lambda: e.ema(w), "emar": lambda: e.ema(w, adjust=False), "lag": lambda: e.lag(w)}[o]()
        self.note(i, f.transform, ex)
        return f


def frame(case):
    idx = pd.DatetimeIndex(np.array([int(t) for t in case["T"]], dtype="datetime64[ns]"))
    return pd.DataFrame({n: np.array([flt(v) for v in c]) for n, c in zip(case["names"], case["X"])}, index=idx)


def cols(series):
    return [{"n": str(n), "v": [num(float(v)) for v in s.values]} for n, s in series]


def guarded(df, f):
    keep = df.copy()
    try:
        r = f(df)
        kept = df.equals(keep) and list(df.columns) == list(keep.columns) and df.index.equals(keep.index)
        if isinstance(r, pd.DataFrame):
            kept = kept and r.index.equals(keep.index)
            cs = cols((n, r.iloc[:, j]) for j, n in enumerate(r.columns))
        else:
            r = list(r) if isinstance(r, tuple) else [r]
            kept = kept and all(s.index.equals(keep.index) for s in r)
            cs = cols((s.name, s) for s in r)
        return {"exc": "", "kept": bool(kept), "cols": cs}
    except Exception as e:
        return {"exc": type(e).__name__ + ": " + str(e)[:120], "kept": True, "cols": []}


def build(kit, d, be, order, timeit=False):
    """Arguments at their documented defaults are left out; the report of the timing goes to the standard output."""
    kw = dict({} if be == "nb" else {"backend": be}, **({} if order == "defined" else {"order": order}), **({"timeit": True} if timeit else {}))
    with contextlib.redirect_stdout(io.StringIO()):
        return kit.build(d, **kw)


def run(case):
    mk = Maker(case)
    n = len(case["kit"])
    try:
        feats = [mk.feature(i) for i in range(1, n + 1)]
        names = [aslist(f.name) for f in feats]
        for f, spec in zip(feats, case["kit"]):
            if spec["custom"]:
                f.name = spec["custom"][0] if isinstance(f.name, str) else list(spec["custom"])
    except Exception as e:
        return {"exc": "while making the features: " + type(e).__name__ + ": " + str(e)[:120]}
    kit = FeatureKit(feats, retain=list(case["retain"]))
    df = frame(case)
    out = {"nm": names, "nodes": mk.nodes}
    for be in ("nb", "pd"):
        out[be] = guarded(df, lambda d: build(kit, d, be, case["order"], be == "nb" and n % 2 == 0))
    out["direct"] = []
    for i, f in enumerate(feats):
        if case["kit"][i]["direct"]:
            be = case["kit"][i]["direct"]
            out["direct"].append(dict(guarded(df, lambda d: f(d) if be == "nb" else f(d, backend=be)), skip=False))
        else:
            out["direct"].append({"skip": True, "exc": "", "kept": True, "cols": []})
    out["fix"] = True
    try:
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, "kit.json")
            kit.save_config(path)
            back = FeatureKit.from_config(path)
        out["fix"] = json.loads(json.dumps(back.to_config())) == json.loads(json.dumps(kit.to_config()))
        out["load"] = guarded(df, lambda d: build(back, d, "nb", case["order"]))
    except Exception as e:
        out["load"] = {"exc": type(e).__name__ + ": " + str(e)[:120], "kept": True, "cols": []}
    return out
