"""C12, C13: histories of the trade store (TradeStore.tla)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vk
from barindex import S

MC = '''SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS MaxL = {n}
 Ids = {ids}
 Modes = {modes}
 Emits = TRUE
INVARIANTS Found Complete Split Described PrintRun
'''
FEB = 1706745600 * 10**9          # 2024-02-01
MAR = 1709251200 * 10**9          # 2024-03-01
JAN = 1704067200 * 10**9          # 2024-01-01
NAMES = {"A": "2024-01", "B": "2024-02"}
# the batches of MCTradeStore, as raw trades: ids decide their integrity
MODEL = [dict(t=[-9, -7], id=[1, 2]), dict(t=[-5, -1], id=[7, 8]), dict(t=[0, 3], id=[11, 12], raw=True), dict(t=[-7, -2], id=[1, 9]),
         dict(t=[3, 6], id=[1, 4]), dict(t=[-6, -6], id=[1, 2], pre=False), dict(t=[], id=[])]


def bounds(base, unit):
    cut = [(JAN - 86400 * 10**9 * 31, "2023-12"), (JAN, "2024-01"), (FEB, "2024-02"), (MAR, "2024-03"), (MAR + 31 * 86400 * 10**9, "2024-04")]
    lim = 10**9
    out = []
    for (a, k), (b, _) in zip(cut, cut[1:]):
        lo, hi = max(-lim, -((base - a) // unit)), min(lim, -(-(b - base) // unit))
        out.append(dict(key=k, lo=lo, hi=max(lo, hi)))
    return out


def model_case(rng, hist):
    unit = rng.choice([60 * 10**9, 61 * 10**9, 3600 * 10**9, 90 * 10**9])
    bs = []
    for b in MODEL:
        n = len(b["t"])
        bs.append(dict(t=b["t"], p=[400 + i for i in range(n)], q=[4 + i for i in range(n)], id=b["id"], m=[i % 2 == 0 for i in range(n)],
                       pre=b.get("pre", True) and n > 0))
    h = []
    for e in hist:
        key = NAMES.get(e["key"], "")
        h.append(dict(op="save", b=e["b"] - 1, key=key or ("2024-01" if e["b"] == 7 else ""), mode=e["mode"], over=e["over"], lo=[], hi=[]))
    h.append(dict(op="gaps", max=1, key="", lo=[], hi=[]))
    h += loads(rng, 3, -10, 8)
    return dict(base=str(FEB), unit=str(unit), batches=bs, hist=h)


def loads(rng, n, a, b):
    out = []
    for _ in range(n):
        lo, hi = sorted([rng.randrange(a, b), rng.randrange(a, b)])
        out.append(dict(op="load", key=rng.choice(["", "", "", "2024-01", "2024-02", "2024-03"]), lo=rng.choice([[], [lo], [lo]]),
                        hi=rng.choice([[], [hi], [hi]]), mp=rng.random() < .15, text=rng.random() < .5))
    return out


def rand_batch(rng, a, b):
    n = rng.choice([1, 2, 3, 6, 20, 60])
    t = sorted(rng.randrange(a, b) for _ in range(n))
    if rng.random() < .6:
        t = sorted(rng.choice(t) for _ in t)
    i, ids = rng.randrange(1, 1000), []
    jumps = rng.random() < .4
    for _ in t:
        ids.append(i)
        i += rng.choice([1, 1, 1, 2, 5]) if jumps else 1
    if n > 2 and rng.random() < .1:
        ids[1] = ids[0]
    side = rng.random()
    return dict(t=t, p=[rng.randrange(380, 420) for _ in t], q=[rng.randrange(1, 40) for _ in t], id=ids,
                m=None if side < .15 else [rng.random() < .5 for _ in t], pre=rng.random() < .8)


def rand_case(rng):
    unit = rng.choice([1, 10**3, 10**9, 10**9, 7 * 10**9, 60 * 10**9, 3600 * 10**9])
    a, b = rng.choice([(-40, 40), (-40, 1), (-200, 200), (-1200, 1200)])
    bs = [rand_batch(rng, *rng.choice([(a, 0), (0, b), (a, b), (a, b)])) for _ in range(rng.choice([2, 3, 4]))]
    h = []
    for _ in range(rng.choice([2, 3, 5, 8])):
        r = rng.random()
        if r < .6 or not h:
            h.append(dict(op="save", b=rng.randrange(len(bs)), key=rng.choice(["", "", "", "2024-01", "2024-02"]),
                          mode="w" if rng.random() < .08 else "a", over=rng.random() < .45, lo=[], hi=[], chunk=rng.choice([1000000, 3, 10])))
        elif r < .68:
            lo = rng.randrange(a, b)
            h.append(dict(op="view", b=rng.randrange(len(bs)), key="", frm=lo, to=lo + rng.randrange(1, b - a)))
        elif r < .76:
            h.append(dict(op="copy", b=0, **{"from": rng.choice(["2024-01", "2024-02"])}, key=rng.choice(["2024-03", "2024-01"]), mode="a",
                          over=rng.random() < .5, lo=[], hi=[]))
        elif r < .82:
            h.append(dict(op="gaps", max=rng.choice([0, 1, 2, 5, 30]), key="", lo=[], hi=[]))
        else:
            h += loads(rng, 1, a - 2, b + 2)
    h.append(dict(op="gaps", max=rng.choice([0, 1, 2, 5, 30]), key="", lo=[], hi=[]))
    h += loads(rng, 4, a - 2, b + 2)
    return dict(base=str(FEB), unit=str(unit), batches=bs, hist=h)


def spec_in(case):
    return dict(bounds=bounds(int(case["base"]), int(case["unit"])), hist=case["hist"])


def check(c):
    docs = []
    r = c.mc("MCTradeStore", MC.format(n=2, ids="{1,2,3,4,5,6,7}", modes=S("a", "w")), name="pairs of saves")
    docs += r["docs"]
    r = c.mc("MCTradeStore", MC.format(n=3, ids="{1,2,4,6}" if c.quick else "{1,2,3,4,5,6,7}", modes=S("a")), name="triples of saves")
    docs += r["docs"]
    docs.sort(key=lambda d: vk.json.dumps(d, sort_keys=True))
    cap = 160 if c.quick else 4000
    mine = c.rng.sample(docs, min(cap, len(docs)))
    c.cov["parts"].append({"behaviours": "save histories", "generated": len(docs), "replayed": len(mine)})
    cases = [model_case(c.rng, d) for d in mine] + [rand_case(c.rng) for _ in range(140 if c.quick else 4000)]
    outs = c.real("store", cases, procs=8)
    runs = [dict(**{"in": spec_in(x), "case": x}, out=o) for x, o in zip(cases, outs)]
    mine = (lambda x: x.startswith("meta_")) if c.pid == "C13" else (lambda x: not x.startswith("meta_"))
    c.judge("TradeStoreTrace", "store", runs, label="store histories", only=mine)
    if not c.viol:
        good = next(r for r in runs if "steps" in r["out"] and any("dump" in s and s["dump"]["months"] for s in r["out"]["steps"])
                    and any(s.get("tr") for s in r["out"]["steps"] if s["res"] == "ok"))
        steps = good["out"]["steps"]
        k = next(i for i, s in enumerate(steps) if "dump" in s and s["dump"]["months"])
        l = next(i for i, s in enumerate(steps) if s["res"] == "ok" and s.get("tr"))

        def at(f):
            return lambda r: f(r["out"]["steps"])
        c.canary("TradeStoreTrace", good, [
            ("trade lost on load", at(lambda s: s[l]["tr"].pop())),
            ("trade stored with another price", at(lambda s: s[k]["dump"]["months"][0]["tr"][0].__setitem__("p", 1))),
            ("wrong count", at(lambda s: s[k]["dump"]["months"][0].__setitem__("count", 99999))),
            ("wrong last time", at(lambda s: s[k]["dump"]["months"][0].__setitem__("last", 99999))),
            ("month not listed", at(lambda s: s[k]["dump"]["months"].pop()))])
    return dict(assumptions=["the object's own trades, integrity flag and discontinuities are decided by C09 and C10",
                             "one process at a time writes the file"])


if __name__ == "__main__":
    vk.main(check, sys.argv.pop(1))
