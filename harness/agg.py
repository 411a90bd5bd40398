"""Per-bar rows: case = {tr, cl, par, what, via}; via "core" calls the aggregation functions, "kit" a bar kit."""
import numpy as np
import pandas as pd
from vk import num, nums, flt
import bars
from finmlkit.bar import base

FP = dict(levels="price_levels", buy="buy_volumes", sell="sell_volumes", buy_ticks="buy_ticks", sell_ticks="sell_ticks",
          buy_imb="buy_imbalances", sell_imb="sell_imbalances")
FP1 = dict(buy_imb_sum="buy_imbalances_sum", sell_imb_sum="sell_imbalances_sum", run="imb_max_run_signed",
           cot="cot_price_levels", gini="vp_gini")
OH = ["open", "high", "low", "close", "volume", "vwap", "trades", "median"]
DIR = ["ticks_buy", "ticks_sell", "volume_buy", "volume_sell", "dollars_buy", "dollars_sell", "mean_spread", "max_spread",
       "cum_ticks_min", "cum_ticks_max", "cum_volume_min", "cum_volume_max", "cum_dollars_min", "cum_dollars_max"]
SZ = ["mean_size_rel", "size_95_rel", "pct_block", "size_gini"]


def rows(names, cols):
    return [{k: num(c[i]) for k, c in zip(names, cols)} for i in range(len(cols[0]))]


def fp_rows(get):
    cols = {k: get(v) for k, v in {**FP, **FP1}.items()}
    n = len(cols["levels"])
    return [{k: (nums(np.asarray(cols[k][i]).tolist()) if k in FP else num(np.asarray(cols[k])[i])) for k in cols} for i in range(n)]


def run(case):
    tr, par, what = case["tr"], case["par"], case["what"]
    theta = np.array([flt(x) for x in par["theta"]])
    if case.get("via", "core") == "core":
        px = np.array([flt(t["px"]) for t in tr])
        vol = np.array([flt(t["vol"]) for t in tr])
        side = np.array([int(t["side"]) for t in tr], dtype=np.int8)
        cl = np.array(case["cl"], dtype=np.int64)
        if what == "ohlcv":
            return {"rows": rows(OH, base.comp_bar_ohlcv(px, vol, cl)[:5] + tuple(base.comp_bar_ohlcv(px, vol, cl)[k] for k in (5, 6, 7)))}
        if what == "dir":
            return {"rows": rows(DIR, base.comp_bar_directional_features(px, vol, cl, side))}
        if what == "size":
            return {"rows": rows(SZ, base.comp_bar_trade_size_features(vol, theta, cl, flt(par["mult"])))}
        o = base.comp_bar_ohlcv(px, vol, cl)
        f = base.comp_bar_footprints(px, vol, cl, side, flt(par["tick"]), o[2], o[1], flt(par["factor"]))
        order = ["price_levels", "buy_volumes", "sell_volumes", "buy_ticks", "sell_ticks", "buy_imbalances", "sell_imbalances",
                 "buy_imbalances_sum", "sell_imbalances_sum", "cot_price_levels", "imb_max_run_signed", "vp_skew", "vp_gini"]
        d = dict(zip(order, f))
        return {"rows": fp_rows(lambda k: d[k])}
    b = bars.kit(case["cfg"], tr)
    if what == "ohlcv":
        o = b.build_ohlcv()
        r = rows(OH, [o[c].values for c in ["open", "high", "low", "close", "volume", "vwap", "trades", "median_trade_size"]])
        index = o.index
    elif what == "dir":
        o = b.build_directional_features()
        r = rows(DIR, [o[c].values for c in DIR])
        index = o.index
    elif what == "size":
        n = len(b.bar_close_indices)
        th = np.array([flt(par["theta"][i % len(par["theta"])]) for i in range(n)])
        o = b.build_trade_size_features(th, **({} if flt(par["mult"]) == 5 else dict(theta_mult=flt(par["mult"]))))
        r = rows(SZ, [o[c].values for c in SZ])
        index = o.index
    else:
        f = b.build_footprints(price_tick_size=flt(par["tick"]), **({} if flt(par["factor"]) == 3 else dict(imbalance_factor=flt(par["factor"]))))
        r = fp_rows(lambda k: getattr(f, k))
        index = pd.to_datetime(f.bar_timestamps, unit="ns")
    ts = [int(x) for x in np.asarray(b.bar_close_timestamps)]
    if [int(x) for x in index.astype("int64")] != ts:
        return {"exc": "rows are not labelled with the close timestamps of their bars"}
    return {"rows": r, "idx": [int(x) for x in b.bar_close_indices], "ts": [str(x) for x in ts]}
