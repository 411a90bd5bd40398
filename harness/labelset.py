"""A label set under call histories: case = {ev, px, lasts, hist, ...}; see LabelSet.tla."""
import hashlib
import numpy as np
import pandas as pd
from vk import flt
from finmlkit.bar.data_model import TradesData
from finmlkit.label.kit import TBMLabel

S = 10**9
T0 = 1700000000 * S


def dig(*xs):
    h = hashlib.sha1()
    for x in xs:
        if isinstance(x, (pd.DataFrame, pd.Series)):
            h.update(np.asarray(x.index.astype("datetime64[ns]").astype("int64")).tobytes())
            for c in ([x] if isinstance(x, pd.Series) else [x[k] for k in x.columns]):
                v = c.to_numpy()
                v = v.astype("datetime64[ns]").astype("int64") if v.dtype.kind == "M" else v
                h.update(str(c.name).encode() + np.asarray(v, dtype=np.float64).tobytes())
        else:
            h.update(repr(x).encode())
    return h.hexdigest()


def run(case):
    q = S // case["scale"]
    n = len(case["px"])
    ts, px = T0 + q * np.arange(n, dtype=np.int64), np.array([flt(p) for p in case["px"]])
    vb = pd.Timedelta(case["vb"] * q, unit="ns")
    x = pd.DataFrame({"tgt": [flt(v) for v in case["tgt"]], "f": np.arange(len(case["tgt"]), dtype=float)},
                     index=pd.DatetimeIndex((T0 + q * np.array(case["at"], dtype=np.int64)).astype("datetime64[ns]")))
    if case["meta"]:
        x["side"] = np.where(np.arange(len(x)) % 2, 1, -1)
    if case["idx"]:
        x["event_idx"] = np.array(case["at"], dtype=np.int64)
    keep = x.copy()
    whole = TradesData(ts.copy(), px.copy(), np.ones(n), side=np.ones(n, dtype=np.int8), timestamp_unit="ns")

    def trades(i):
        m = case["lasts"][i - 1] + 1
        if case["view"]:  # the same trades, seen so far
            whole.set_view_range(pd.Timestamp(int(ts[0]) - 1, unit="ns"), pd.Timestamp(int(ts[m - 1]), unit="ns"))
            return whole
        return TradesData(ts[:m].copy(), px[:m].copy(), np.ones(m), side=np.ones(m, dtype=np.int8), timestamp_unit="ns")

    def new():
        return TBMLabel(x, "tgt", flt(case["minret"]), (1.0, 1.5), vb, pd.Timedelta(case["minc"] * q, unit="ns"), case["meta"])

    def ask(k, op, td=None):
        try:
            if op == "label":
                f, o = k.compute_labels(td)
                return dig(f, o, k.labels, k.full_output)
            if op == "weigh":
                return dig(k.compute_weights(td, case["norm"]))
            if op == "labels":
                return dig(k.features, k.full_output, k.labels, k.full_output)
            if op == "returns":
                return dig(k.event_returns)
            return dig(k.features, k.target_returns, k.event_count, k.first_event_timestamp, k.last_event_timestamp, k.event_range)
        except (ValueError, AttributeError) as e:  # weights of a set without labels: no frame to take them from
            return "refused"
    k, got, last = new(), [], 1
    for e in case["hist"]:
        if e["op"] == "other":
            try:
                k.compute_labels(whole.data)
                got.append("carried out")
            except ValueError:
                got.append("refused")
        else:
            if e["op"] == "label":
                a = ask(k, "label", trades(e["i"]))
                last = e["i"] if a != "refused" else last
                got.append(a)
            else:
                got.append(ask(k, e["op"], trades(last) if e["op"] == "weigh" else None))
    ref = []
    for i in sorted({e["i"] for e in case["hist"] if e["op"] == "label"}):
        f = new()
        a = ask(f, "label", trades(i))
        if a == "refused":
            continue
        ref += [dict(key=["labels", i], dig=a), dict(key=["weights", i], dig=ask(f, "weigh", trades(i))), dict(key=["returns", i], dig=ask(f, "returns")),
                dict(key=["events", f.event_count], dig=ask(f, "events"))]
    ref.append(dict(key=["events", len(x)], dig=ask(new(), "events")))
    if case["view"]:
        whole._start_date = whole._end_date = None
    d = whole.data
    touched = ([] if x.equals(keep) else ["features"]) + ([] if np.array_equal(d["price"].values, px) and np.array_equal(d["timestamp"].values, ts) else ["trades"])
    return dict(got=got, ref=ref, touched=touched)
