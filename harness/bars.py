"""Drives the public bar kits: case = {cfg, tr} as in BarIndex.tla."""
import numpy as np
import pandas as pd
from vk import num, flt
from finmlkit.bar.data_model import TradesData
from finmlkit.bar.kit import TimeBarKit, TickBarKit, VolumeBarKit, DollarBarKit, CUSUMBarKit


def trades(tr):
    ts = np.array([int(t["ts"]) for t in tr], dtype=np.int64)
    px = np.array([flt(t["px"]) for t in tr], dtype=np.float64)
    vol = np.array([flt(t["vol"]) for t in tr], dtype=np.float64)
    side = np.array([int(t.get("side", "1")) for t in tr], dtype=np.int8)
    return TradesData(ts, px, vol, side=side, timestamp_unit="ns")


def kit(cfg, tr, td=None):
    td = td if td is not None else trades(tr)
    k = cfg["kind"]
    if k == "time":
        return TimeBarKit(td, pd.Timedelta(int(cfg["iv"]), unit="ns"))
    if k == "tick":
        return TickBarKit(td, int(cfg["thr"]))
    if k == "volume":
        return VolumeBarKit(td, flt(cfg["thr"]))
    if k == "dollar":
        return DollarBarKit(td, flt(cfg["thr"]))
    sg = np.array([flt(t["sg"]) for t in tr], dtype=np.float64)
    kw = dict(sigma_floor=flt(cfg["floor"]), sigma_mult=flt(cfg["mult"]))
    # a parameter at its documented default is left out, so that the defaults are used as well
    return CUSUMBarKit(td, sg, **{k: v for k, v in kw.items() if v != dict(sigma_floor=5e-4, sigma_mult=2.)[k]})


def run(case):
    b = kit(case["cfg"], case["tr"])
    cusum = case["cfg"]["kind"] == "cusum"
    if cusum and len(case["tr"]) % 2 == 0:  # before the bars are formed, or afterwards
        sigma = np.asarray(b.get_sigma())
    ts = np.asarray(b.bar_close_timestamps)
    idx = np.asarray(b.bar_close_indices)
    anchor = "none"
    if len(idx):
        o = b.build_ohlcv()
        anchor = int(idx[0]) - int(o["trades"].iloc[0])
        if list(o.index.asi8 if hasattr(o.index, "asi8") else o.index.astype("int64")) != list(ts):
            return {"exc": "bars are not labelled with their close timestamps"}
        if case["cfg"]["kind"] == "time" and o.index.freq != pd.Timedelta(int(case["cfg"]["iv"]), unit="ns"):
            return {"exc": "the time bars' index does not carry their interval"}
    if cusum and len(case["tr"]) % 2:
        sigma = np.asarray(b.get_sigma())
    return {"em": [{"ts": num(a), "idx": int(i)} for a, i in zip(ts, idx)], "anchor": anchor if anchor != "none" else -99,
            "sigma": [num(x) for x in sigma] if cusum else []}
