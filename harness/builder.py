"""Bar builders under call histories: case = {tr, par, views, hist}; see Builder.tla."""
import hashlib
import numpy as np
import pandas as pd
from vk import flt
import bars
from finmlkit.bar.data_model import TradesData
from finmlkit.bar.kit import TimeBarKit, TickBarKit, VolumeBarKit, DollarBarKit, CUSUMBarKit

FIELDS = ["bar_timestamps", "price_levels", "buy_volumes", "sell_volumes", "buy_ticks", "sell_ticks", "buy_imbalances", "sell_imbalances",
          "cot_price_levels", "sell_imbalances_sum", "buy_imbalances_sum", "imb_max_run_signed", "vp_skew", "vp_gini"]


def dig(*xs):
    h = hashlib.sha1()
    for x in xs:
        if isinstance(x, pd.DataFrame):
            h.update(repr(list(x.columns)).encode())
            h.update(type(x.index).__name__.encode())
            h.update(np.asarray(x.index.astype("int64"), dtype=np.int64).tobytes())
            for c in x.columns:
                h.update(np.asarray(x[c].values, dtype=np.float64).tobytes())
        else:
            h.update(np.asarray(x, dtype=np.float64).tobytes())
    return h.hexdigest()


def arrays(tr):
    return [np.array([int(t["ts"]) for t in tr], dtype=np.int64), np.array([flt(t["px"]) for t in tr]),
            np.array([flt(t["vol"]) for t in tr]), np.array([int(t["side"]) for t in tr], dtype=np.int8),
            np.array([flt(t["sg"]) for t in tr])]


def make(kind, td, sg, par):
    if kind == "time":
        return TimeBarKit(td, pd.Timedelta(int(par["iv"]), unit="ns"))
    if kind == "tick":
        return TickBarKit(td, int(par["ticks"]))
    if kind == "volume":
        return VolumeBarKit(td, flt(par["vol"]))
    if kind == "dollar":
        return DollarBarKit(td, flt(par["dollar"]))
    return CUSUMBarKit(td, sg, sigma_floor=flt(par["floor"]), sigma_mult=1.0)


def call(b, what, par, theta):
    n = len(b.bar_close_indices) if what in ("size", "size2", "bounds") else 0
    if what == "ohlcv":
        return dig(b.build_ohlcv())
    if what == "dir":
        return dig(b.build_directional_features())
    if what == "size":
        return dig(b.build_trade_size_features(theta[:n], theta_mult=2.0))
    if what == "size2":
        return dig(b.build_trade_size_features(theta[:n] / 2, theta_mult=3.0))
    if what in ("foot", "footauto"):
        f = b.build_footprints(price_tick_size=flt(par["tick"]), imbalance_factor=2.0) if what == "foot" else b.build_footprints()
        return dig(*[np.concatenate([np.asarray(x, dtype=float).ravel() for x in getattr(f, k)] + [np.zeros(0)])
                     if k in FIELDS[1:8] else getattr(f, k) for k in FIELDS])
    return dig(b.bar_close_indices, b.bar_close_timestamps)


def attempt(f):
    """Fresh and used builders must also agree on what cannot be built."""
    try:
        return f()
    except (ValueError, IndexError, TypeError, KeyError, ZeroDivisionError) as e:
        return "raised " + type(e).__name__


def run(case):
    tr, par = case["tr"], case["par"]
    ts, px, vol, side, sg = arrays(tr)
    keep = [a.copy() for a in (ts, px, vol, side, sg)]
    td = TradesData(ts, px, vol, side=side, timestamp_unit="ns")
    theta = np.linspace(.5, 3, 500)
    keep_theta = theta.copy()
    views = dict(case["views"])

    def members(v):
        if v == "all":
            return np.ones(len(tr), dtype=bool)
        lo, hi = views[v]
        return (keep[0] >= int(lo)) & (keep[0] <= int(hi))
    now = "all"
    blds, got, needed, sigs = [], [], set(), []
    for e in case["hist"]:
        if e["op"] == "view":
            lo, hi = [int(x) for x in (views[e["arg"]] if e["arg"] != "all" else (keep[0][0] - 1, keep[0][-1] + 1))]
            td.set_view_range(pd.Timestamp(lo, unit="ns"), pd.Timestamp(hi, unit="ns"))
            now = e["arg"]
            got.append("ok")
        elif e["op"] == "badview":
            try:
                td.set_view_range(pd.Timestamp(int(keep[0][-1]) + 5, unit="ns"), pd.Timestamp(int(keep[0][0]), unit="ns"))
                got.append("accepted")
            except ValueError:
                got.append("refused")
        elif e["op"] == "trades":
            d = td.data
            got.append(dig(d["timestamp"].values, d["price"].values, d["amount"].values, d["side"].values))
            needed.add(("trades", "", now))
        elif e["op"] == "new":
            s = sg[members(now)]
            s = s.copy()
            sigs.append((s, s.copy()))
            blds.append((make(e["arg"], td, s, par), e["arg"], now))
            got.append("ok")
        else:
            b, kind, v = blds[e["b"] - 1]
            got.append(attempt(lambda: call(b, e["arg"], par, theta)))
            needed.add((e["arg"], kind, v))
    ref = []
    for t, k, v in sorted(needed):
        m = members(v)
        a = [x[m].copy() for x in keep]
        if t == "trades":
            ref.append(dict(key=[t, k, v], dig=dig(*a[:4])))
        else:
            def fresh():
                d = TradesData(a[0], a[1], a[2], side=a[3], timestamp_unit="ns")
                return call(make(k, d, a[4], par), t, par, keep_theta)
            ref.append(dict(key=[t, k, v], dig=attempt(fresh)))
    touched = [n for n, a, b in zip(("timestamps", "prices", "amounts", "sides", "volatility"), (ts, px, vol, side, sg), keep)
               if not np.array_equal(a, b, equal_nan=n == "volatility" or n == "prices")]
    touched += ["volatility" for a, b in sigs if not np.array_equal(a, b, equal_nan=True)]
    touched += [] if np.array_equal(theta, keep_theta) else ["theta"]
    return dict(got=got, ref=ref, touched=touched)
