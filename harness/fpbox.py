"""The footprint container: case = {bars, hist, base, unit}; see Footprint.tla."""
import datetime
import numpy as np
import pandas as pd
from finmlkit.bar.data_model import FootprintData

ROWS = [("price_levels", np.int32), ("buy_volumes", np.float32), ("sell_volumes", np.float32), ("buy_ticks", np.int32),
        ("sell_ticks", np.int32), ("buy_imbalances", np.bool_), ("sell_imbalances", np.bool_)]
EXTRA = [("cot_price_levels", np.int32), ("sell_imbalances_sum", np.uint16), ("buy_imbalances_sum", np.uint16),
         ("imb_max_run_signed", np.int16), ("vp_skew", np.float64), ("vp_gini", np.float64)]
TICK = .25


def run(case):
    base, unit = int(case["base"]), int(case["unit"])
    bars = case["bars"]
    ts = np.array([base + b["at"] * unit for b in bars], dtype=np.int64)
    cols = {}
    for j, (name, dt) in enumerate(ROWS):
        a = np.empty(len(bars), dtype=object)
        for i, b in enumerate(bars):
            a[i] = np.array([r[j] for r in b["rows"]], dtype=dt)
        cols[name] = a
    for j, (name, dt) in enumerate(EXTRA):
        cols[name] = None if case["bare"] else np.array([b["extra"][j] for b in bars], dtype=dt)
    if case["numba"]:
        lists = [[np.array([r[j] for r in b["rows"]], dtype=dt) for b in bars] for j, (_, dt) in enumerate(ROWS)]
        ex = [[b["extra"][j] for b in bars] for j in range(6)]
        # from_numba takes buy before sell sums
        f = FootprintData.from_numba((ts, *lists, ex[2], ex[1], ex[0], ex[3], ex[4], ex[5]), TICK)
    else:
        f = FootprintData(bar_timestamps=ts, price_tick=TICK, **cols)

    def at(x):
        d = int(x) - base
        return d // unit if d % unit == 0 else 10**8

    def ints(xs):
        return [int(x) for x in xs]

    def bar(f, i):
        rows = [ints(getattr(f, n)[i]) for n, _ in ROWS]
        ok = len({len(r) for r in rows}) == 1
        ex = [0] * 6 if f.cot_price_levels is None else [int(getattr(f, n)[i]) for n, _ in EXTRA]
        return dict(at=at(f.bar_timestamps[i]), rows=[list(r) for r in zip(*rows)] if ok else [[-1]], extra=ex)

    def kind(f):
        return "array" if all(isinstance(getattr(f, n), np.ndarray) for n, _ in ROWS) else \
            "list" if not any(isinstance(getattr(f, n), np.ndarray) for n, _ in ROWS) else "mixed"

    fps, steps = [f], []
    for e in case["hist"]:
        f = fps[e["k"] - 1]
        s = {}
        a, b = (e["a"][0] if e["a"] else None), (e["b"][0] if e["b"] else None)
        if e["op"] == "slice":
            fps.append(f[a:b:e["st"]] if e["st"] != 1 else f[a:b])
        elif e["op"] == "time":
            x, y = [pd.Timestamp(base + t * unit, unit="ns") for t in (a, b)]
            if e.get("form") == "text":
                # (a text of fewer digits stands for all of its second)
                x, y = [str(v) if unit >= 10**9 else f"{v:%Y-%m-%d %H:%M:%S}.{v.value % 10**9:09d}" for v in (x, y)]
            fps.append(f[x:y])
        elif e["op"] == "cast":
            (f.cast_to_numpy if e["st"] == 0 else f.cast_to_numba_list)()
        elif e["op"] == "bar":
            try:
                g = f[a]
                s["bar"] = [dict(at=at(g.bar_timestamps), rows=[list(r) for r in zip(*[ints(getattr(g, n)) for n, _ in ROWS])],
                                 extra=[0] * 6 if g.cot_price_levels is None else [int(getattr(g, n)) for n, _ in EXTRA])]
            except IndexError:
                s["bar"] = []
        else:
            d = f.get_df()
            s["table"] = [dict(bar=int(i[0]), at=at(pd.Timestamp(i[1]).value),
                               row=[int(round(r["price_level"] / TICK)), int(r["buy_volume"]), int(r["sell_volume"]), int(r["buy_ticks"]),
                                    int(r["sell_ticks"]), int(r["buy_imbalance"]), int(r["sell_imbalance"])]) for i, r in d.iterrows()]
        s["all"] = [dict(bars=[bar(g, i) for i in range(len(g.bar_timestamps))], len=len(g), kind=kind(g), valid=bool(g.is_valid())) for g in fps]
        steps.append(s)
    return dict(steps=steps)
