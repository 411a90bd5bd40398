"""Price tick inference: case = {runs: [[price, trades, amount]], per}; see PriceTickTrace.tla."""
import numpy as np
import pandas as pd
from vk import num, flt
from finmlkit.bar.data_model import TradesData
from finmlkit.bar.kit import TimeBarKit
from finmlkit.bar.utils import comp_price_tick_size

BASE = 1_600_000_000_000_000_000


def run(case):
    rows = case["runs"]
    m = [r[1] for r in rows]
    px, am = np.repeat([flt(r[0]) for r in rows], m), np.repeat([flt(r[2]) for r in rows], m)
    run_of = np.repeat(np.arange(1, len(rows) + 1), m)
    keep = px.copy()
    tick = comp_price_tick_size(px)
    if not np.array_equal(px, keep):
        return {"exc": "the prices were changed"}
    bars = []
    if len(set(px[:10000])) > 1 and case["per"]:
        n = len(px)
        ts = BASE + np.arange(n, dtype=np.int64) * 10**9 + 5 * 10**8
        side = np.where(np.arange(n) % 3 == 0, -1, 1).astype(np.int8)
        fp = TimeBarKit(TradesData(ts, px, am, side=side, timestamp_unit="ns"), pd.Timedelta(case["per"], unit="s")).build_footprints()
        lo = BASE - 10**9
        for i, t in enumerate(np.asarray(fp.bar_timestamps)):
            of = run_of[(ts > lo) & (ts <= t)]
            lo = t
            lv = [[int(a), num(float(b) + float(s))] for a, b, s in zip(fp.price_levels[i], fp.buy_volumes[i], fp.sell_volumes[i])]
            bars.append(dict(of=[[int(j), int((of == j).sum())] for j in sorted(set(of.tolist()))], tick=num(float(fp.price_tick)), lv=lv))
    return {"tick": num(float(tick)), "bars": bars}
