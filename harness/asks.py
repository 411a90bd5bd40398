"""Makes the requests of Requests.tla: case = {kind, f}; answers whether it was carried out and what became of the inputs."""
import copy
import datetime as dt
import numpy as np
import pandas as pd
from vk import flt
import finmlkit.feature.transforms as tf
from finmlkit.bar.base import comp_price_tick_size
from finmlkit.bar.data_model import TradesData, FootprintData
from finmlkit.bar.kit import TickBarKit, CUSUMBarKit
from finmlkit.feature.core.ma import ewma
from finmlkit.feature.core.structural_break.cusum import cusum_test_rolling
from finmlkit.feature.core.utils import comp_lagged_returns
from finmlkit.feature.core.volatility import true_range
from finmlkit.feature.core.volume import VolumePro
from finmlkit.feature.kit import Feature, FeatureKit, Compose
from finmlkit.label.kit import TBMLabel, SampleWeights
from finmlkit.sampling.filters import cusum_filter

S = 10**9
T0 = 1700000000 * S
N = 40
CONSTANT = 5  # an attribute of this module that cannot be called


class HarnessError(Exception):
    pass


def times(n, step=S, start=T0):
    return pd.DatetimeIndex((start + step * np.arange(n)).astype("datetime64[ns]"))


def trades(n=N):
    return TradesData(T0 + S * np.arange(n, dtype=np.int64), 100 + np.sin(np.arange(n)), np.ones(n) + np.arange(n) % 3,
                      side=np.where(np.arange(n) % 2, 1, -1).astype(np.int8), timestamp_unit="ns")


def state(x):
    """what an object or an input is, to be compared"""
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return x.copy()
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, TradesData):
        return (x.start_date, x.end_date, x.data.copy())
    if isinstance(x, TBMLabel):
        try:
            o = x.full_output.copy()
        except ValueError:
            o = None
        return (x.features.copy(), x.event_count, o)
    if isinstance(x, FootprintData):
        return [np.concatenate([np.asarray(v, dtype=float).ravel() for v in getattr(x, k)]) for k in ("price_levels", "buy_volumes", "sell_volumes")] + [x.bar_timestamps.copy()]
    if isinstance(x, Feature):
        return copy.copy(x.name)
    if isinstance(x, (list, tuple)):
        return [state(v) for v in x]
    if isinstance(x, dict):
        return {k: state(v) for k, v in x.items()}
    return x


def same(a, b):
    if isinstance(a, (pd.DataFrame, pd.Series)):
        return type(a) is type(b) and a.equals(b) and (a.index.equals(b.index))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a is b or a == b or (a != a and b != b)


def ask(f, *inputs):
    before = state(list(inputs))
    try:
        f()
        a = dict(done=True)
        a["class"] = ""
    except Exception as e:
        a = dict(done=False)
        # a class of its own that is one of the documented ones counts as that
        a["class"] = next((c.__name__ for c in type(e).__mro__ if c in (ValueError, TypeError, AssertionError, KeyError)), type(e).__name__)
        a["msg"] = str(e)[:150]
    a["kept"] = bool(same(before, state(list(inputs))))
    return a


def form(x, how):
    if how == "none":
        return None
    return {"array": np.asarray, "list": list, "series": pd.Series, "text": str}[how](x)


def barriers(how):
    return {"pair": (1.0, 1.0), "list": [1.0, 1.0], "triple": (1.0, 1.0, 1.0), "one": (1.0,), "number": 1.0}[how]


def events(f, n=6):
    idx = {"time": times(n, 3 * S), "number": pd.RangeIndex(n), "text": pd.Index([str(i) for i in range(n)])}[f["index"]]
    val = {"full": .02, "void": np.nan, "tiny": 1e-9}[f["data"]]
    x = pd.DataFrame({("tgt" if f["target"] == "there" else "other"): np.full(n, val)}, index=idx)
    if f["side"] != "absent":
        x["side"] = pd.Series(["a"] * n if f["side"] == "text" else np.ones(n).astype({"float": "float64"}.get(f["side"], f["side"])), index=idx)
    return x


def labelset(f):
    x = events(f)
    return ask(lambda: TBMLabel(x, "tgt", flt(f["minret"]), barriers(f["bars"]), pd.Timedelta(seconds=5), is_meta=f["meta"]), x)


def labels(f):
    td = trades()
    x = events(dict(index="time", data="full", target="there", side="int8" if f["meta"] else "absent"))
    if f["none"]:
        x.index = x.index + pd.Timedelta(hours=1)
    k = TBMLabel(x, "tgt", .001, (1.0, 1.0), pd.Timedelta(seconds=int(f["vb"]) / 10), is_meta=f["meta"])
    arg = {"trades": td, "frame": td.data, "none": None}[f["trades"]]
    before = state(k)
    a = ask(lambda: k.compute_labels(arg), td, x)
    if not a["done"]:
        a["kept"] = a["kept"] and same(before, state(k))
    return a


def info(f):
    td = trades()
    cols = {"event_idx": np.array([0, 2, 4]), "touch_idx": np.array([3, 5, 9])}
    cols.pop({"no event": "event_idx", "no touch": "touch_idx"}.get(f["cols"]), None)
    lab = pd.DataFrame(cols, index=times(3))
    arg = {"frame": lab, "series": lab.iloc[:, 0], "none": None}[f["labels"]]
    return ask(lambda: SampleWeights.compute_info_weights(td if f["trades"] == "trades" else td.data, arg, f["norm"]), td, lab)


def final(f):
    idx = times(5)
    u = pd.Series([.5, 1., .25, .75, 1.], index=idx)
    r = pd.Series([.01, .02, .01, .03, .02] if f["r"] != "zero" else np.zeros(5), index=idx)
    v = pd.Series([1., .5, .2, 1., .7], index=idx)
    lab = pd.Series(np.array([1, -1, 1, 1, -1], dtype=np.int8), index=idx)

    def opt(x, how):
        return {"none": None, "array": x.values, "list": list(x.values), "series": x, "zero": x}[how]
    c = {"text": "1", "none": None}.get(f["c"]) if f["c"] in ("text", "none") else flt(f["c"])
    if f["c"] in ("-1", "0", "1") and f["lab"] == "none":
        c = int(c)
    return ask(lambda: SampleWeights.compute_final_weights(opt(u, f["u"]), time_decay_intercept=c, return_attribution=opt(r, f["r"]),
                                                           vertical_touch_weights=opt(v, f["v"]), labels=opt(lab, f["lab"])), u, r, v, lab)


def filter_(f):
    px, th = 100.0 + np.arange(f["n"]), np.full(f["m"], .5)
    return ask(lambda: cusum_filter(px, th), px, th)


def trades_(f):
    n = 6
    ts = (T0 + S * np.arange(n, dtype=np.int64)) // {"us": 1000}.get(f["unit"], 1)
    px, qty, i = 100 + np.arange(n) % 3 + 0., np.ones(n), np.arange(n, dtype=np.int64)
    mk, sd = np.arange(n) % 2 == 0, np.ones(n, dtype=np.int8)
    kw = dict(id=form(i, f["id"]), is_buyer_maker=form(mk, f["maker"]), side=form(sd, f["side"]), preprocess=f["pre"])
    if f["unit"] != "none":
        kw["timestamp_unit"] = f["unit"]
    if f["res"] != "none":
        kw["proc_res"] = f["res"]
    return ask(lambda: TradesData(form(ts, f["ts"]), form(px, f["px"]), form(qty, f["qty"]), **kw), px, qty, i, mk, sd)


def view(f):
    td = trades()
    if f["had"]:
        td.set_view_range(times(1, start=T0 + 3 * S)[0], times(1, start=T0 + 20 * S)[0])
    a, b = [times(1, start=T0 + k * S)[0] for k in {"before": (5, 9), "same": (5, 5), "after": (9, 5)}[f["order"]]]
    if f["form"] == "text":
        a, b = str(a), str(b)
    before = state(td)
    r = ask(lambda: td.set_view_range(a, b))
    now = state(td)
    r["kept"] = r["kept"] and (same(before, now) if not r["done"] else len(now[2]) == 5)
    return r


def percount(f):
    td = trades()
    if f["what"] == "sizes":
        b = TickBarKit(td, 5)
        th = np.ones(max(0, len(b.bar_close_indices) + f["d"]))
        return ask(lambda: b.build_trade_size_features(th), td, th)
    sg = np.full(N + f["d"], .001)
    return ask(lambda: CUSUMBarKit(td, sg, .0001, 1.0).build_ohlcv(), td, sg)


def footprints(td):
    b = TickBarKit(td, 5)
    return b.build_ohlcv(), b.build_footprints(price_tick_size=.1)


def slice_(f):
    fp = footprints(trades())[1]
    t = pd.to_datetime(fp.bar_timestamps)
    key = {"positions": slice(1, 3), "times": slice(t[1].to_pydatetime(), t[3].to_pydatetime()), "texts": slice(str(t[1]), str(t[3])),
           "list": [1, 2], "number": 1.0, "text": str(t[1]), "none": None, "pair": (1, 2), "array": np.array([1, 2])}[f["key"]]
    return ask(lambda: fp[key], fp)


def profile(f):
    bars, fp = footprints(trades())
    if f["d"] == 1:
        fp = fp[0:len(bars) - 1]
    if f["d"] == -1:
        bars = bars.iloc[:-1]
    vp = VolumePro(window_size=pd.Timedelta(seconds=12), n_bins=7)
    a, b = bars.index[3], bars.index[-1]
    if f["bounds"] == "none":
        return ask(lambda: vp.compute(bars, fp), bars)
    a, b = {"texts": (str(a), str(b)), "times": (a, b), "mixed": (str(a), b)}[f["bounds"]]
    return ask(lambda: vp.compute_range(bars, fp, a, b), bars)


def noprices(f):
    px = 100.0 + np.arange(f["n"])
    return ask(lambda: comp_price_tick_size(px), px)


def frame(cols=("close", "high", "low", "open", "volume", "vwap"), index="time", n=60):
    c = 100 + 3 * np.sin(np.arange(n) / 3)
    full = dict(close=c, high=c + 1, low=c - 1, open=c + .5, volume=5 + np.arange(n) % 4 + 0., vwap=c + .1)
    return pd.DataFrame({k: full[k] for k in cols}, index=times(n, 600 * S) if index == "time" else pd.RangeIndex(n))


HALF = pd.Timedelta(minutes=30)
MADE = dict(SMA=lambda: tf.SMA(3, "close"), ATR=lambda: tf.ATR(3, input_cols=["close", "high", "low"]), CUSUMTest=lambda: tf.CUSUMTest(20, 5, 9, "close"),
            CandleShape=lambda: tf.CandleShape(input_cols=["open", "high", "low", "close", "vwap"]), Return=lambda: tf.Return(2, "close"),
            ReturnT=lambda: tf.ReturnT(HALF, input_col="close"), EWMST=lambda: tf.EWMST(HALF, "close"), BarRate=lambda: tf.BarRate(HALF, "close"),
            TimeCues=lambda: tf.TimeCues("close"), BarDuration=lambda: tf.BarDuration(1, "close"), BarDurationEWMA=lambda: tf.BarDurationEWMA(3, "close"),
            DailyGap=lambda: tf.DailyGap("close"), ORBBreak=lambda: tf.ORBBreak(input_cols=["high", "low", "close"]), Identity=lambda: tf.Identity("close"),
            External=lambda: tf.ExternalFunction("numpy.square", "close", "sq"),
            Compose=lambda: Compose(tf.SMA(3, "close"), tf.Lag(1, "sma3")),
            Sum=lambda: (Feature(tf.SMA(3, "close")) + Feature(tf.Identity("high"))).transform,
            Min=lambda: Feature.min(Feature(tf.SMA(3, "close")), Feature(tf.Identity("high"))).transform,
            Abs=lambda: abs(Feature(tf.SMA(3, "close"))).transform, Times2=lambda: (Feature(tf.SMA(3, "close")) * 2.0).transform)


def indicator(f):
    t = MADE[f["what"]]()
    first = {"CandleShape": "open", "ORBBreak": "high"}.get(f["what"], "close")
    x = frame({"all": ("close", "high", "low", "open", "volume", "vwap"), "first": (first,), "other": ("volume",)}[f["cols"]], f["index"])
    given = {"frame": x, "series": x["close"] if "close" in x else x.iloc[:, 0], "dict": {c: x[c].values for c in x}}[f["given"]]
    kw = {} if f["backend"] == "none" else {"backend": f["backend"]}
    kw = {"backend": None} if f["backend"] == "none" else kw
    return ask(lambda: t(given, **kw), x)


def combine(f):
    def side(how):
        return 2.0 if how == "number" else Feature(tf.SMA(3, "close") if how == "one" else tf.ExternalFunction("numpy.modf", "close", ["a", "b"]))
    ops = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b, "min": Feature.min, "max": Feature.max}
    x = frame()
    return ask(lambda: FeatureKit([ops[f["op"]](side(f["left"]), side(f["right"]))], retain=["close"]).build(x), x)


def rename(f):
    ft = Feature(tf.SMA(3, "close") if f["had"] == "one" else tf.TimeCues("close"))
    if f["had"] == "two" and len(ft.name) != 2:
        ft = Feature(tf.ExternalFunction("numpy.modf", "close", ["a", "b"]))
    to = {"one": "x", "two": ["x", "y"], "three": ["x", "y", "z"]}[f["to"]]
    before = state(ft)

    def do():
        ft.name = to
    a = ask(do)
    a["kept"] = same(before, state(ft)) if not a["done"] else same(to, ft.name)
    return a


def config(f):
    a, b = Feature(tf.SMA(3, "close")), Feature(tf.Identity("high"))
    ft = {"binary": lambda: a + b, "minmax": lambda: Feature.min(a, b), "const": lambda: a * 2.0, "unary": lambda: abs(a),
          "external": lambda: Feature(tf.ExternalFunction("numpy.square", "close", "sq"))}[f["kind"]]()
    cfg = FeatureKit([ft], retain=["close"]).to_config()

    def spoil(d):
        if isinstance(d, dict):
            if d.get("kind") == f["kind"]:
                if f["op"] == "unknown":
                    d["op_name"] = "frobnicate"
                if not f["func"]:
                    d["func"] = ""
                if not f["cols"]:
                    d["requires"] = []
            for v in d.values():
                spoil(v)
        if isinstance(d, list):
            for v in d:
                spoil(v)
    spoil(cfg)
    keep = copy.deepcopy(cfg)
    x = frame()
    r = ask(lambda: FeatureKit.from_dict(cfg).build(x), x)
    r["kept"] = r["kept"] and keep == cfg
    return r


def external(f):
    def gives(c):
        return {"array": c.values, "tuple1": (c,), "tuple2": (c, c.values), "tuple3": (c, c, c), "list2": [c, c]}[f["gives"]]
    func = {"callable": gives, "path": "numpy.square", "constant": "asks.CONSTANT", "nothing": ""}[f["func"]]
    x = frame()
    names = ["o1", "o2", "o3"][:f["says"]]
    return ask(lambda: tf.ExternalFunction(func, "close", names if f["says"] > 1 else "o1")(x), x)


def param(f):
    v, x = flt(f["v"]), np.array([1., 2., 3., 4., 5.])
    if f["what"] == "ewma span":
        return ask(lambda: ewma(x, v if v < 1 else int(v)), x)
    if f["what"] == "return window":
        ts = T0 + S * np.arange(5, dtype=np.int64)
        return ask(lambda: comp_lagged_returns(ts, x, v, False), ts, x)
    if f["what"] == "range lengths":
        a = [x + 1, x - 1, x]
        if v:
            k = {"-1": 0, "1/2": 1, "1": 2, "3": 0}[f["v"]]
            a[k] = a[k][:-1] if f["v"] != "3" else np.append(a[k], 1.)
        return ask(lambda: true_range(*a), *a)
    px = 100 + np.arange(60) % 7 + 0.
    px[50] = v
    return ask(lambda: cusum_test_rolling(px, 20, 5), px)


KINDS = {"filter": filter_, "trades": trades_, "slice": slice_}


def run(case):
    k = case["kind"]
    try:
        return KINDS.get(k, globals().get(k))(case["f"])
    except Exception as e:
        import traceback
        raise HarnessError(f"{case}: {traceback.format_exc()[-800:]}") from e
