"""Drives the label kit and the sample weights: case["kind"] selects."""
import numpy as np
import pandas as pd
from vk import num, flt
from finmlkit.bar.data_model import TradesData
from finmlkit.label.kit import TBMLabel, SampleWeights
from finmlkit.sampling.filters import cusum_filter
import contextlib
import os


def trades(tr, base=0):
    n = len(tr)
    return TradesData(np.array([int(t["ts"]) for t in tr], dtype=np.int64), np.array([flt(t["px"]) for t in tr]),
                      np.ones(n), side=np.ones(n, dtype=np.int8), timestamp_unit="ns")


def terse(case, defaults, **kw):
    """the keyword arguments of a call, half of the time without those that are at their documented default"""
    return {k: v for k, v in kw.items() if not (case.get("short") and k in defaults and (v is defaults[k] or not isinstance(v, pd.Series) and v == defaults[k]))}


def tbm(case):
    cfg, rows = case["cfg"], case["rows"]
    x = pd.DataFrame({"tgt": [flt(r["tgt"]) for r in rows], "f": [flt(r["f"]) for r in rows]},
                     index=pd.DatetimeIndex(np.array([int(r["ts"]) for r in rows], dtype="datetime64[ns]")).as_unit(case.get("ix") or "ns"))
    x["row"] = np.arange(float(len(rows)))
    if cfg["meta"]:
        x["side"] = np.array([int(r["side"]) for r in rows], dtype=np.int64)
    if rows[0]["at"] >= 0:
        x["event_idx"] = np.array([r["at"] for r in rows], dtype=np.int64)
    keep = x.copy()
    td = trades(case["tr"])
    try:
        k = TBMLabel(x, "tgt", flt(cfg["minret"]), (flt(cfg["bot"]), flt(cfg["top"])), pd.Timedelta(int(cfg["vb"]), unit="ns"),
                     **terse(case, {"min_close_time": pd.Timedelta(1, unit="s"), "is_meta": False},
                             min_close_time=pd.Timedelta(int(cfg["minc"]), unit="ns"), is_meta=cfg["meta"]))
        with contextlib.redirect_stdout(open(os.devnull, "w")):
            for m in case.get("before", []):  # labels on the first trades only, before those on all
                try:
                    k.compute_labels(trades(case["tr"][:m]))
                except (ValueError, IndexError):
                    pass
            f, o = k.compute_labels(td)
    except ValueError:
        return {"none": True, "res": []}
    if case["kind"] == "own":
        return own(case, k, td, o)
    if not x.equals(keep):
        return {"exc": "the caller's features were changed"}
    if list(f.index) != list(o.index) or len(k.labels) != len(o) or k.event_count != len(o):
        return {"exc": "features and labels do not correspond"}
    if not (f["tgt"] == keep.iloc[f["row"].astype(int)]["tgt"]).all() or not (k.target_returns == f["tgt"]).all():
        return {"exc": "features changed"}
    return {"none": False, "res": [dict(ts=num(int(t)), at=int(o["event_idx"].iloc[i]), touch=int(o["touch_idx"].iloc[i]),
                                        lab=int(o["labels"].iloc[i]), ret=num(float(o["returns"].iloc[i])),
                                        w=num(float(o["vertical_touch_weights"].iloc[i])),
                                        time=num(int(o["touch_time"].astype("datetime64[ns]").astype("int64").iloc[i])))
                                   for i, t in enumerate(o.index.astype("datetime64[ns]").astype("int64"))]}


def own(case, k, td, o):
    """the weights a label set computes for itself, with the lives it found"""
    ev = [dict(s=int(a), t=int(b), w=num(float(w)), m=1) for a, b, w in zip(o["event_idx"], o["touch_idx"], o["vertical_touch_weights"])]
    keep = o.copy()
    try:
        for _ in range(case.get("again", 1)):
            x = k.compute_weights(td, **{a: b for a, b in dict(normalized=case["norm"]).items() if b or not case.get("short")})
    except ValueError:
        return {"none": True, "uniq": [], "attr": [], "w": [], "ev": ev}
    if not x.index.equals(keep.index) or not k.full_output[keep.columns].equals(keep):
        return {"exc": "the labels were changed"}
    return {"none": False, "ev": ev, "uniq": [num(float(v)) for v in x["avg_uniqueness"]],
            "attr": [num(float(v)) for v in x["return_attribution"]], "w": []}


def info(case):
    td = trades(case["tr"])
    m = [e["m"] for e in case["ev"]]  # labels of the same life
    idx = pd.DatetimeIndex(np.repeat(np.array([int(case["tr"][e["s"]]["ts"]) for e in case["ev"]], dtype="datetime64[ns]"), m))
    lab = pd.DataFrame({"event_idx": np.repeat(np.array([e["s"] for e in case["ev"]], dtype=np.int64), m),
                        "touch_idx": np.repeat(np.array([e["t"] for e in case["ev"]], dtype=np.int64), m),
                        "vertical_touch_weights": np.repeat(np.array([flt(e["w"]) for e in case["ev"]]), m)}, index=idx)
    keep = lab.copy()
    try:
        o = SampleWeights.compute_info_weights(td, lab, **terse(case, {"normalize": False}, normalize=case["norm"]))
    except ValueError:
        return {"none": True, "uniq": [], "attr": [], "w": []}
    if not lab.equals(keep) or not o.index.equals(lab.index):
        return {"exc": "the labels were changed"}
    at = np.cumsum([0] + m)
    for col in ("avg_uniqueness", "return_attribution"):
        v = o[col].to_numpy()
        if any(not np.array_equal(v[a:b], np.repeat(v[a:a + 1], b - a), equal_nan=True) for a, b in zip(at, at[1:])):
            return {"exc": "labels of the same life differ in " + col}
    o = o.iloc[at[:-1]]
    return {"none": False, "uniq": [num(float(v)) for v in o["avg_uniqueness"]],
            "attr": [num(float(v)) for v in o["return_attribution"]],
            "w": [num(float(v)) for v in o["vertical_touch_weights"]] if "vertical_touch_weights" in o else []}


def final(case):
    n = len(case["u"])
    idx = pd.DatetimeIndex(np.arange(n, dtype="int64").astype("datetime64[s]"))
    mis, how = case.get("mis"), case.get("how", "shift")

    def s(key, f=flt, dt=float):
        if not case[key]:
            return None
        x = pd.Series(np.array([f(v) for v in case[key]], dtype=dt), index=idx)
        if key == mis:  # samples of other times, or in another order, or one more of them
            if how == "longer":
                x = pd.concat([x, x.iloc[-1:].set_axis(x.index[-1:] + pd.Timedelta(seconds=1))])
            elif how == "shorter" and n > 1:
                x = x.iloc[:-1]
            elif how == "turned" and n > 1:
                x = x.iloc[::-1]
            else:
                x = x.set_axis(x.index + pd.Timedelta(seconds=1))
        return x
    args = [s("u"), s("r"), s("v")]
    lab = s("lab", int, np.int8)
    keep = [None if a is None else a.copy() for a in args]
    try:
        o = SampleWeights.compute_final_weights(args[0], **terse(
            case, dict(time_decay_intercept=1., return_attribution=None, vertical_touch_weights=None, labels=None), time_decay_intercept=flt(case["c"]),
            return_attribution=args[1], vertical_touch_weights=args[2], labels=lab))
    except ValueError:
        return {"none": True, "decay": [], "w": [], "attr": [], "vert": []}
    if any(a is not None and not a.equals(b) for a, b in zip(args, keep)):
        return {"exc": "the caller's weights were changed"}
    if not o.index.equals(idx):
        return {"exc": "weights of other samples"}
    part = lambda k: [num(float(v)) for v in o[k]] if k in o else []
    return {"none": False, "attr": part("return_attribution"), "vert": part("vertical_touch_weights"), "decay": [num(float(v)) for v in o["time_decay_weights"]], "w": [num(float(v)) for v in o["weights"]]}


def cusum(case):
    px = np.array([flt(v) for v in case["px"]])
    th = np.array([flt(v) for v in case["thr"]])
    a, b = px.copy(), th.copy()
    e = cusum_filter(px, th)
    if not (np.array_equal(a, px) and np.array_equal(b, th, equal_nan=True)):
        return {"exc": "the input was changed"}
    return {"ev": [int(i) for i in e]}


def run(case):
    return tbm(case) if case["kind"] == "own" else globals()[case["kind"]](case)
