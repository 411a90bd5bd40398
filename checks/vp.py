"""C27: volume profiles (VolumeProfile.tla)."""
import os
import sys
from fractions import Fraction as F
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vk

MC = '''SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS MaxB = {n}
 Emits = TRUE
INVARIANTS {inv}PrintRun
'''
INV = "Conserved Around Holds NoLookAhead Ordered "
BASE = 1_706_745_600 * 10**9
S = 10**9


def split(rng, v):
    """A volume as bought and sold volume, both multiples of a quarter (or whole, if it is)."""
    b = F(rng.randrange(0, int(v * 4) + 1), 4) if v.denominator > 1 else F(rng.randrange(0, int(v) + 1))
    return [str(b), str(v - b)]


def fill(rng, d):
    """A behaviour of the specification, as a case: one step of its time is a second."""
    bars = [dict(at=str(BASE + int(F(b["at"])) * S), lo=b["lo"], hi=b["hi"], rows=[[p, v] + split(rng, F(v)) for p, v in b["rows"]]) for b in d["bars"]]
    p = d["par"]
    w = int(F(p["w"])) * S
    cs = [dict(fn=f, w=str(w), nb=p["nb"], va=p["va"], x=bars[0]["at"], y=bars[-1]["at"], set=rng.random() < .3, form=rng.choice(["text", "ts"]))
          for f in (["rolling"] if p["nb"] else ["function"])]
    cs.append(dict(cs[0], fn="developing", x=bars[rng.randrange(len(bars))]["at"]))
    return dict(bars=bars, calls=cs, tick=vk.num(rng.choice([.25, .01, 1., .1])), base=str(BASE), lists=rng.random() < .5)


def rand(rng, long=False):
    n = rng.choice([1, 2, 3, 5, 8, 12] + ([20] if long else []))
    unit = rng.choice([S, 60 * S, S // 1000, 1_000_001_000])
    small = rng.random() < .5  # few enough for exact sums after rounding to 8 decimals in single precision
    at, mid, bars, left = BASE + rng.randrange(5) * unit, rng.randrange(20, 3000), [], 40
    # no two sums of these are near each other, nor a share near one of them: single precision rounds them
    dust = rng.sample([3**i for i in range(7)], 7) if rng.random() < .15 else None
    if rng.random() < .1:
        mid = rng.choice([32760, 40000, 65540, 120000])
    twins = rng.random() < .2  # bars that close at the same time
    for i in range(n):
        at += 0 if i and twins and rng.random() < .35 else unit * rng.choice([1, 1, 1, 2, 3])
        mid = max(12, mid + rng.randrange(-6, 7))
        m = rng.choice([1, 1, 2, 3, 5, 9, 15, 30, 33])
        lo = max(1, mid - rng.randrange(0, m))
        rows = []
        for k in range(m):
            if 0 < k < m - 1 and rng.random() < .3:
                continue
            v = F(rng.choice([0, 1, 1, 2, 3, 7])) if small else F(rng.choice([0, 1, 1, 2, 5, 20, 400, rng.randrange(4000)]), rng.choice([1, 2, 4]))
            v = min(v, left) if small else v
            left -= v if small else 0
            if dust is not None:
                v = F(vk.num((dust.pop() if dust and rng.random() < .5 else 0) * 1e-7))
                rows.append([lo + k, str(v), str(v), "0"])
            else:
                rows.append([lo + k, str(v)] + split(rng, v))
        if rng.random() < .1:
            rows = []
        bars.append(dict(at=str(at), lo=lo, hi=lo + m - 1, rows=rows))
    cs = []
    for _ in range(2):
        a, b = sorted(rng.choices(range(n), k=2))
        fn = rng.choice(["rolling", "rolling", "range", "function", "developing"] if small or dust is not None else ["rolling", "rolling", "range", "function"])
        w = unit * rng.choice([1, 2, 3, 5, 0, 1000] if n > 2 else [0, 1, 2])
        if rng.random() < .3:
            w += rng.choice([-1000, 1000]) if w else 1000
        x, y = int(bars[a]["at"]) - rng.choice([0, 0, 1000]), int(bars[b]["at"]) + rng.choice([0, 0, 1000, unit])
        cs.append(dict(fn=fn, w=str(w), nb=0 if fn in ("function", "developing") and rng.random() < .6 else rng.choice([1, 2, 3, 5, 27, 28]),
                       va=vk.num(rng.choice([34.17, 51.73, 68.34] if dust is not None else [50, 75, 25, 100, 62.5, 0, 68.34])), x=str(x), y=str(y), set=rng.random() < .3, form=rng.choice(["text", "ts"])))
    return dict(bars=bars, calls=cs, tick=vk.num(rng.choice([.25, .01, 1., .1])), base=str(BASE), lists=rng.random() < .5)


def check(c):
    r = c.mc("MCVolumeProfile", MC.format(n=3, inv=INV), name="volume profiles are gathered", must_cover=("Grow", "Write"))
    docs = sorted(r["docs"], key=lambda d: vk.json.dumps(d, sort_keys=True))
    if not c.quick:
        docs += c.gen("MCVolumeProfile", MC.format(n=4, inv=""), name="profiles of four bars")
    mine = c.rng.sample(docs, min(len(docs), 1200 if c.quick else 40000))
    cases = [fill(c.rng, d) for d in mine] + [rand(c.rng, not c.quick) for _ in range(900 if c.quick else 20000)]
    jit = c.rng.sample(cases, 200 if c.quick else 6000)
    runs = []
    for j, cs in ((False, cases), (True, jit)):
        os_ = c.real("vp", cs, jit=j, procs=8 if not j else 4)
        for x, o in zip(cs, os_):
            runs.append(dict(**{"in": dict(bars=x["bars"], calls=x["calls"]), "case": x}, out=o, jit=j))
    c.judge("VpTrace", "vp", runs, label="volume profiles")
    if not c.viol:
        good = next(r for r in runs if r["in"]["calls"][0]["fn"] == "rolling" and r["out"]["calls"][0]["poc"][-1] not in ("nan", "0")
                    and len(r["in"]["bars"]) > 2 and r["out"]["calls"][0]["above"][-1] != "0")
        at = lambda r: r["out"]["calls"][0]
        bump = lambda k: lambda r: at(r)[k].__setitem__(-1, str(int(at(r)[k][-1]) + 1))
        c.canary("VpTrace", good, [("control moved", bump("poc")), ("area higher", bump("hva")), ("area lower", bump("lva")),
                                   ("share", lambda r: at(r)["above"].__setitem__(-1, "2")), ("blank", lambda r: at(r)["poc"].__setitem__(-1, "nan")),
                                   ("a bar lost", lambda r: [at(r)[k].pop() for k in ("poc", "hva", "lva", "above")]),
                                   ("raised", lambda r: at(r).__setitem__("exc", "ValueError"))])
    return dict(assumptions=["volumes are sums that single precision represents; a share that is met within rounding may be judged either way"])


if __name__ == "__main__":
    vk.main(check, sys.argv.pop(1))
