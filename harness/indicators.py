"""Drives a feature transform (or a core function no transform exposes) on columns of bars."""
import numpy as np
import pandas as pd
from vk import num, flt
import finmlkit.feature.transforms as tf
from finmlkit.feature.core import volatility

DT = {"f8": np.float64, "f4": np.float32, "i8": np.int64}
TIMED = {"ReturnT": "window", "EWMST": "half_life", "BarRate": "window"}
ONE = {"Identity", "TimeCues", "Lag", "Return", "ReturnT", "ROC", "PctChange", "RSIWilder", "EWMST", "ZScore", "BurstRatio", "RealizedVolatility",
       "BollingerPercentB", "SMA", "EWMA", "FlowAcceleration", "VarianceRatio14", "KurtosisTransform", "TrendSlope",
       "MeanReversionZScore", "DailyGap", "BarRate", "HurstExponent", "BarDurationEWMA", "BarDuration", "BiPowerVariation", "DirRunLen", "CUSUMTest"}


class Core:
    """A core function, called as a transform is."""
    def __init__(self, t, k):
        self.t, self.k = t, k

    def __call__(self, df, backend):
        x = df["x0"].values
        ts = df.index.values.astype("datetime64[ns]").astype(np.int64)
        y = volatility.ewms(x, self.k["span"]) if self.t == "ewms" else \
            volatility.ewmst_mean0(ts, x, int(self.k["half_life"]) / 1e9)
        return pd.Series(y, index=df.index, name=self.t)


def build(case, cols):
    t, k = case["t"], {a: b for a, b in case["k"].items() if a != "none"}
    if t in ("ewms", "ewmst_mean0"):
        return Core(t, k)
    if t in TIMED:
        k[TIMED[t]] = pd.Timedelta(int(k[TIMED[t]]), unit="ns")
    if "num_std" in k:
        k["num_std"] = flt(k["num_std"])
    for a in case.get("bare", []):
        k.pop(a)
    if case.get("cols"):
        return getattr(tf, t)(**k)
    if t in ONE:
        return getattr(tf, t)(input_col=cols[0], **k)
    return getattr(tf, t)(input_cols=cols, **k)


def apply(case, df, backend):
    keep = df.copy()
    try:
        r = build(case, list(df.columns))(df, backend=backend)
    except Exception as e:
        return {"exc": type(e).__name__ + ": " + str(e)[:120], "cols": [], "names": [], "kept": True}
    r = list(r) if isinstance(r, tuple) else [r]
    kept = df.equals(keep) and list(df.columns) == list(keep.columns) and df.index.equals(keep.index) and all(s.index.equals(keep.index) for s in r)
    return {"exc": "", "cols": [[num(float(v)) for v in s.values] for s in r], "names": [str(s.name) for s in r], "kept": bool(kept)}


def run(case):
    n = len(case["T"])
    idx = pd.DatetimeIndex(np.array([int(t) for t in case["T"]], dtype="datetime64[ns]"))
    if case.get("ix") == "utc":
        idx = idx.tz_localize("UTC")
    elif case.get("ix"):
        idx = idx.as_unit(case["ix"])
    df = pd.DataFrame({(case.get("cols") or {j: f"x{j}" for j in range(9)})[j]: np.array([flt(v) for v in c]).astype(DT[(case.get("dts") or [case["dt"]] * 9)[j]]) for j, c in enumerate(case["X"])}, index=idx)
    out = {"nb": apply(case, df, "nb"), "pd": apply(case, df, "pd"), "cuts": []}
    for m in case["cuts"]:
        for be in ("nb", "pd"):
            r = apply(case, df.iloc[:m].copy(), be)
            out["cuts"].append({"n": m, "be": be, "exc": r["exc"], "cols": r["cols"]})
    return out
