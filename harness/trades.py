"""TradesData preprocessing: case = {inp, raw}."""
import numpy as np
import pandas as pd
from vk import num, flt
from finmlkit.bar.data_model import TradesData


def run(case):
    raw, inp = case["raw"], case["inp"]
    ts = np.array([int(r["ts"]) for r in raw], dtype=np.int64)
    px = np.array([flt(r["px"]) for r in raw])
    am = np.array([flt(r["am"]) for r in raw])
    ids = np.array([int(r["id"]) for r in raw], dtype=np.int64)
    mk = np.array([bool(r["mk"]) for r in raw]) if inp["maker"] else None
    keep = [x.copy() for x in (ts, px, am, ids)] + [None if mk is None else mk.copy()]
    t = TradesData(ts, px, am, ids, is_buyer_maker=mk, timestamp_unit=inp["unit"] or None, preprocess=True,
                   proc_res=inp["res"] or None)
    for a, b in zip(keep, (ts, px, am, ids, mk)):
        if a is not None and not np.array_equal(a, b):
            return {"exc": "the caller's arrays were changed"}
    d = t.data
    rows = [dict(ts=num(a), px=num(b), am=num(c), side=str(int(s)))
            for a, b, c, s in zip(d["timestamp"].values, d["price"].values, d["amount"].values, d["side"].values)]
    disc = [dict(start=num(x["start_id"]), end=num(x["end_id"]), missing=num(x["missing_ids"]), pre=num(int(x["pre_gap_time"].value)),
                 post=num(int(x["post_gap_time"].value))) for x in t.discontinuities]
    for x in t.discontinuities:
        if x["time_interval"] != x["post_gap_time"] - x["pre_gap_time"]:
            return {"exc": "time_interval of a discontinuity"}
    return dict(rows=rows, ok="bad" if t.data_ok is False else "unknown", missing=num(t.missing_pct), disc=disc,
                unit=t.orig_timestamp_unit, index_ok=bool((d.index.astype("int64") == d["timestamp"].values).all()))
