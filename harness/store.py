"""Trade store histories on a real HDF5 file: case = {unit, months, batches, hist}; see TradeStore.tla.

A tick is `unit` nanoseconds from `base`; files live in a scratch directory that is removed."""
import os
import shutil
import tempfile
import numpy as np
import pandas as pd
from finmlkit.bar.data_model import TradesData
from finmlkit.bar.io import H5Inspector
from vk import num

PX = 4.0


def given(**kw):
    """Arguments at their documented defaults are left out."""
    return {k: v for k, (v, d) in kw.items() if v != d}


class World:
    def __init__(self, case):
        self.base, self.unit = int(case["base"]), int(case["unit"])

    def ns(self, t):
        return self.base + int(t) * self.unit

    def tick(self, ns):
        d = int(ns) - self.base
        return d // self.unit if d % self.unit == 0 else 10**8 + d % self.unit % 1000

    def stamp(self, t):
        return pd.Timestamp(self.ns(t), unit="ns")

    def rows(self, df):
        side = df["side"].values if "side" in df.columns else [None] * len(df)
        return [dict(t=self.tick(t), p=exact(p * PX), q=exact(q * PX), s=0 if s is None or s != s else int(s))
                for t, p, q, s in zip(df["timestamp"].values, df["price"].values, df["amount"].values, side)]


def exact(x):
    return int(x) if float(x) == int(x) else 10**8


def build(w, b):
    ts = np.array([w.ns(t) for t in b["t"]], dtype=np.int64)
    px, q = np.array(b["p"], dtype=float) / PX, np.array(b["q"], dtype=float) / PX
    ids = np.array(b["id"], dtype=np.int64)
    mk = np.array(b["m"], dtype=bool) if b.get("m") is not None else None
    if b["pre"]:
        return TradesData(ts, px, q, ids, is_buyer_maker=mk, timestamp_unit="ns", preprocess=True)
    side = None if mk is None else np.where(mk, -1, 1).astype(np.int8)
    return TradesData(ts, px, q, ids, side=side, timestamp_unit="ns")


def flag(x):
    return "unknown" if x is None or x != x else "good" if x else "bad"


def disc_text(d):
    return "|".join(str(x) for x in d)


def describe(w, td):
    """What the object holds: the batch a save is about."""
    df = td.data
    disc = [disc_text([d["start_id"], d["end_id"], d["missing_ids"], d["pre_gap_time"], d["post_gap_time"], d["time_interval"]])
            for d in td.discontinuities]
    return dict(tr=w.rows(df), ok=flag(td.data_ok), miss=num(float(td.missing_pct)), disc=disc,
                cols=",".join(f"{c}:{df[c].dtype}" for c in df.columns))


def integrity(df):
    if df is None:
        return []
    cols = ["start_id", "end_id", "missing_ids", "pre_gap_time_str", "post_gap_time_str", "time_interval_str"]
    return [disc_text([r[c] for c in cols]) for _, r in df.iterrows()]


def dump(w, path):
    if not os.path.exists(path):
        return dict(months=[], listed=[], summary=[])
    ins = H5Inspector(path)
    keys = ins.list_keys()
    months = []
    for k in keys:
        m, s = ins.get_metadata(k), ins.get_statistics(k)
        td = TradesData.load_trades_h5(path, key=k.split("/")[-1])
        months.append(dict(key=k.split("/")[-1], tr=w.rows(td.data), count=int(m["record_count"]), first=w.tick(m["first_timestamp"]),
                           last=w.tick(m["last_timestamp"]), ok=flag(m["data_integrity_ok"]), miss=num(float(m["missing_pct"])),
                           disc=integrity(ins.get_integrity_info(k)),
                           stat=dict(n=int(s["record_count"]), first=w.tick(s["first_timestamp"]), last=w.tick(s["last_timestamp"]),
                                     plo=exact(s["price_range"][0] * PX), phi=exact(s["price_range"][1] * PX),
                                     qlo=exact(s["amount_range"][0] * PX), qhi=exact(s["amount_range"][1] * PX))))
    summ = ins.get_integrity_summary(verbose=False) if keys else None
    summary = [dict(key=k, count=int(v["metadata"]["record_count"]), disc=integrity(v["discontinuities"])) for k, v in (summ or {}).items()]
    return dict(months=months, listed=[k.split("/")[-1] for k in keys], summary=summary)


def run(case):
    w = World(case)
    tmp = tempfile.mkdtemp(prefix="fmkstore")
    try:
        path = os.path.join(tmp, "sub", "t.h5")
        objs = [build(w, b) for b in case["batches"]]
        steps = []
        for e in case["hist"]:
            if e["op"] == "view":
                objs[e["b"]].set_view_range(w.stamp(e["frm"]), w.stamp(e["to"]))
                steps.append(dict(res="ok"))
            elif e["op"] in ("save", "copy"):
                if e["op"] == "copy":
                    try:
                        td = TradesData.load_trades_h5(path, key=e["from"])
                    except (KeyError, OSError):
                        td = objs[e["b"]]
                else:
                    td = objs[e["b"]]
                s = dict(batch=describe(w, td))
                try:
                    r = td.save_h5(path, **given(month_key=(e["key"] or None, None), mode=(e["mode"], "a"), overwrite_month=(e["over"], True),
                                               chunksize=(e.get("chunk", 1000000), 1000000)))
                    s["res"] = r.split("/")[-1] if r.startswith("/trades/") else r
                except (ValueError, IndexError, TypeError) as x:
                    s["res"] = "refused"
                s["dump"] = dump(w, path)
                steps.append(s)
            elif e["op"] == "load":
                kw = dict(key=e["key"] or None, start_time=w.stamp(e["lo"][0]) if e["lo"] else None,
                          end_time=w.stamp(e["hi"][0]) if e["hi"] else None, enable_multiprocessing=e["mp"], n_workers=2)
                if e.get("text"):
                    kw["start_time"] = str(kw["start_time"]) if kw["start_time"] is not None else None
                    kw["end_time"] = str(kw["end_time"]) if kw["end_time"] is not None else None
                try:
                    td = TradesData.load_trades_h5(path, **kw)
                    df = td.data
                    steps.append(dict(res="ok" if len(df) else "nothing", tr=w.rows(df),
                                      index_ok=bool((df.index.astype("int64") == df["timestamp"].values).all())))
                except (KeyError, ValueError, OSError):
                    steps.append(dict(res="nothing", tr=[], index_ok=True))
            elif e["op"] == "gaps":
                mx = pd.Timedelta(int(e["max"]) * w.unit, unit="ns")
                g = H5Inspector(path).inspect_gaps(**given(max_gap=(mx, pd.Timedelta(minutes=1))), processes=1) if os.path.exists(path) else {}
                steps.append(dict(res="ok", gaps=[dict(key=k.split("/")[-1], gaps=[
                    dict(at=w.tick(a.value), by=d.value // w.unit if d.value % w.unit == 0 else 10**8) for a, d in v]) for k, v in g.items()]))
        return dict(steps=steps)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
