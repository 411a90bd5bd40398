"""Stored time bars on a real HDF5 file: case = {base, hist}; see BarStore.tla."""
import os
import shutil
import tempfile
import numpy as np
import pandas as pd
from finmlkit.bar.data_model import TradesData
from finmlkit.bar.io import AddTimeBarH5, TimeBarReader
from vk import num

Q = 250_000_000
TF = {1: "1s", 2: "2s", 5: "5s", 10: "10s", 60: "1min", 300: "5min", 3600: "1h", 86400: "1D"}


def run(case):
    base = int(case["base"])
    tmp = tempfile.mkdtemp(prefix="fmkbars")
    path = os.path.join(tmp, "t.h5")
    name = (lambda k, e: k if e.get("short") else "/trades/" + k)

    def label(ts):
        d = int(ts.value) - base
        return d // 10**9 if d % 10**9 == 0 else 10**8
    steps = []
    try:
        for e in case["hist"]:
            if e["op"] == "save":
                tr = e["tr"]
                td = TradesData(np.array([base + r["t"] * Q for r in tr], dtype=np.int64), np.array([float(r["p"]) for r in tr]),
                                np.array([float(r["q"]) for r in tr]), side=np.ones(len(tr), dtype=np.int8), timestamp_unit="ns")
                td.save_h5(path, month_key=e["key"])
                steps.append(dict(res="ok"))
            elif e["op"] == "process":
                try:
                    k = e["key"]
                    r = AddTimeBarH5(path).process_key(name(k, e), **({"overwrite": True} if e["over"] else {}))
                    steps.append(dict(res="made" if r else "skipped"))
                except (KeyError, OSError):
                    steps.append(dict(res="error"))
            elif e["op"] == "all":
                try:
                    ks = [name(k, e) for k in e["keys"]] or None
                    r = AddTimeBarH5(path, ks).process_all(**({"overwrite": True} if e["over"] else {}))
                    steps.append(dict(res="ok", all=[dict(key=k.split("/")[-1], made=bool(v)) for k, v in r.items()]) if r else dict(res="error", all=[]))
                except (KeyError, OSError):
                    steps.append(dict(res="error", all=[]))
            elif e["op"] == "keys":
                if not os.path.exists(path):
                    steps.append(dict(res="ok", keys=[], first=0, last=0))
                    continue
                r = TimeBarReader(path)
                ks = [k.split("/")[-1] for k in r.list_keys()]
                a, b = r._list_time_range() if ks else (None, None)
                steps.append(dict(res="ok", keys=ks, first=label(a) if ks else 0, last=label(b) if ks else 0))
            else:
                if not os.path.exists(path):
                    steps.append(dict(res="ok", rows=[]))
                    continue

                def at(x):
                    if not x:
                        return None
                    t = pd.Timestamp(base + x[0] * Q, unit="ns")
                    return str(t) if e["form"] == "text" else t.to_pydatetime() if e["form"] == "py" else t
                df = TimeBarReader(path).read(at(e["lo"]), at(e["hi"]), timeframe=TF[e["tf"]] if e["tf"] else None)
                steps.append(dict(res="ok", rows=[dict(at=label(i), o=num(float(r["open"])), h=num(float(r["high"])), l=num(float(r["low"])),
                                                       c=num(float(r["close"])), v=num(float(r["volume"])), n=int(r["trades"]),
                                                       w=num(float(r["vwap"])), m=num(float(r["median_trade_size"]))) for i, r in df.iterrows()]))
        return dict(steps=steps)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
