"""Volume profiles of footprints: case = {bars, calls, tick, base}; see VolumeProfile.tla."""
import numpy as np
import pandas as pd
from vk import num, flt
from finmlkit.bar.data_model import FootprintData
from finmlkit.feature.core import volume


def run(case):
    bars, tick, base = case["bars"], flt(case["tick"]), int(case["base"])
    ts = np.array([int(b["at"]) for b in bars], dtype=np.int64)

    def col(f, dt):
        a = np.empty(len(bars), dtype=object)
        for i, b in enumerate(bars):
            a[i] = np.array([f(r) for r in b["rows"]], dtype=dt)
        return a

    def whole():
        lv = col(lambda r: r[0], np.int32)
        # a row's volume is split between buyers and sellers
        bv, sv = col(lambda r: flt(r[2]), np.float32), col(lambda r: flt(r[3]), np.float32)
        z, no = col(lambda r: 0, np.int32), col(lambda r: False, np.bool_)
        f = FootprintData(bar_timestamps=ts.copy(), price_tick=tick, price_levels=lv, buy_volumes=bv, sell_volumes=sv, buy_ticks=z, sell_ticks=z.copy(),
                          buy_imbalances=no, sell_imbalances=no.copy())
        if case["lists"]:
            f.cast_to_numba_list()
        return f

    df = pd.DataFrame({"high": [b["hi"] * tick for b in bars], "low": [b["lo"] * tick for b in bars], "close": 1.},
                      index=pd.DatetimeIndex(pd.to_datetime(ts, unit="ns"), name="timestamp"))

    def ticks(xs):
        out = []
        for x in xs:
            k = round(float(x) / tick) if x == x else None
            out.append("nan" if k is None else str(k) if abs(k * tick - float(x)) <= 1e-9 * abs(float(x)) else "off tick %r" % float(x))
        return out

    res = []
    for c in case["calls"]:
        nb, va, w = c["nb"] or None, flt(c["va"]), int(c["w"])
        o = dict(exc="", at=[str(t) for t in ts], poc=[], hva=[], lva=[], above=[])
        try:
            f = whole()
            if c["fn"] in ("rolling", "range"):
                vp = volume.VolumePro(pd.Timedelta(w, unit="ns"), **{k: v for k, v, d in (("n_bins", nb, 27), ("va_pct", va, 68.34)) if v != d})
                if c["set"]:
                    vp = volume.VolumePro(pd.Timedelta(7, unit="D"), 5, 33.)
                    vp.reset_parameters(pd.Timedelta(w, unit="ns").total_seconds(), nb, va)
                if c["fn"] == "rolling":
                    r = vp.compute(df, f)
                else:
                    x, y = int(c["x"]), int(c["y"])
                    x, y = (str(pd.Timestamp(x)), str(pd.Timestamp(y))) if c["form"] == "text" else (pd.Timestamp(x), pd.Timestamp(y))
                    at, *r = vp.compute_range(df, f, x, y)
                    o["at"] = [str(int(t)) for t in at]
                for k, v in zip(("poc", "hva", "lva"), r):
                    o[k] = ticks(v)
                o["above"] = [num(x) for x in r[3]]
            else:
                f.cast_to_numba_list()
                a = (ts, df.high.values, df.low.values, f.price_levels, f.buy_volumes, f.sell_volumes)
                if c["fn"] == "function":
                    r = volume.volume_profile_rolling(*a, w / 1e9, nb, tick, va)
                    o["above"] = [num(x) for x in r[3]]
                else:
                    at, *r = volume.volume_profile_developing(*a, int(c["x"]), int(c["y"]), nb, tick, va)
                    o["at"] = [str(int(t)) for t in at]
                for k, v in zip(("poc", "hva", "lva"), r):
                    o[k] = [str(int(x)) for x in v]
        except Exception as e:
            o["exc"] = type(e).__name__ + ": " + str(e)[:200]
        res.append(o)
    return dict(calls=res)
