"""C29: the inferred price tick and the footprint on it (PriceTick.tla)."""
import os
import sys
from fractions import Fraction as F
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vk

MC = '''SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS MaxN = {n}
 Pxs = {px}
 Runs = {m}
 Emits = TRUE
INVARIANTS Carries Divisors PrintRun
CONSTRAINT Bounded
PROPERTIES Refines Repeats
'''
TICKS = ["1/4", "1/2", "1/8", "1/32", "1/64", "1/10", "1/100", "1/20", "1/1000", "1/200", "1/5000", "1/100000000", "5/2", "5", "10", "1", "3/4", "1/10000000", "1/40"]


def S(*xs):
    return "{" + ", ".join('"%s"' % x for x in xs) + "}"


def rand(rng, i):
    tick = F(rng.choice(TICKS))
    base = rng.choice([F(1), F(100), F(1000), F(40000), tick * 1000])
    if base / tick > 10**9 or base < tick:
        base = tick * rng.randrange(1, 10**6)
    k = max(1, int(base / tick) + rng.randrange(-3, 4))
    n = rng.choice([1, 2, 3, 5, 12, 40])
    # steps of several ticks only, and prices that all lie apart from the grid of their steps
    step = rng.choice([1, 1, 1, 2, 3, 5, 10])
    px = [tick * max(1, k + step * rng.randrange(0, rng.choice([2, 5, 30]))) for _ in range(n)]
    m = [rng.choice([1, 1, 2, 5]) for _ in range(n)]
    per = rng.choice([1, 2, 5, 10])
    if i % 25 == 0:  # a finer price within the sample, at its end, or beyond
        m[0] = 9999 - sum(m[1:]) + rng.choice([0, 0, -3, 1, 50])
        px.append(tick * k + tick / rng.choice([2, 5]))
        m.append(rng.choice([1, 3]))
        per = 0
    return dict(runs=[[str(p), c, vk.num(rng.choice([1, .5, 2, .25]))] for p, c in zip(px, m)], per=per)


def check(c):
    docs = []
    for name, kw in (("ticks are refined", dict(n=3 if c.quick else 4, px=S("1/4", "1/2", "3/4", 1, "5/2", "10", "101/10", "100", "100001/1000", "3/8", "201/2", "1/1000"), m="{1}")),
                     ("the sample fills", dict(n=4, px=S("1/4", 1, "3/2"), m="{1, 3333, 9999}"))):
        r = c.mc("MCPriceTick", MC.format(**kw), name=name)
        if "1," not in kw["m"]:
            d = sorted(r["docs"], key=lambda d: vk.json.dumps(d, sort_keys=True))
            docs += d[::-(-len(d) // (2000 if c.quick else 20000))]
    # a wide range of levels is left to the tick alone
    cases = [dict(runs=[[p, 1 + j % 2, "1"] for j, p in enumerate(d["px"])], per=2 if max(map(F, d["px"])) < 3 else 0) for d in docs]
    rnd = [rand(c.rng, i) for i in range(1500 if c.quick else 15000)]
    runs = []
    for jit, cs in ((False, cases + rnd), (True, rnd[:500] + cases[::17])):
        outs = c.real("tick", cs, jit=jit, procs=8 if not jit else 2)
        runs += [dict(**{"in": x}, out=o, jit=jit) for x, o in zip(cs, outs)]
    c.judge("PriceTickTrace", "tick", runs, label="price ticks")
    if not c.viol:
        good = next(r for r in runs if len(r["out"]["bars"]) > 2 and len(r["out"]["bars"][0]["lv"]) > 2)
        lv = lambda r: r["out"]["bars"][0]["lv"]
        c.canary("PriceTickTrace", good, [
            ("tick halved", lambda r: r["out"].__setitem__("tick", str(F(r["out"]["tick"]) / 2))),
            ("level moved", lambda r: lv(r)[0].__setitem__(0, lv(r)[0][0] - 1)),
            ("volume changed", lambda r: lv(r)[0].__setitem__(1, "7/3")),
            ("footprint of another tick", lambda r: r["out"]["bars"][0].__setitem__("tick", "1/7"))])
    return dict(assumptions=["prices are decimals (or binary fractions) whose tick needs at most six digits more than the smallest step has leading"])


if __name__ == "__main__":
    vk.main(check, sys.argv.pop(1))
