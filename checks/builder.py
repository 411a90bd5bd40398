"""C08: bar builders under call histories (Builder.tla)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vk
from barindex import S, rand_times

MC = '''SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS MaxL = {n}
 Kinds = {kinds}
 Views = {views}
 Emits = TRUE
INVARIANTS Faithful PrintRun
'''
TABLES = ["ohlcv", "dir", "size", "size2", "foot", "footauto", "bounds"]


def data(rng):
    n = rng.choice([6, 12, 25])
    ts = rand_times(rng, n, 10**9)
    px, p = [], 100.0
    for _ in range(n):
        p = max(1.0, p + rng.choice([0, .25, -.25, .5, -.5, 1, -1]))
        px.append(p)
    tr = [dict(ts=str(ts[i]), px=vk.num(px[i]), vol=vk.num(rng.choice([.5, 1, 2, 3, 10])), side=rng.choice(["1", "-1"]),
               sg=vk.num(float("nan") if rng.random() < .3 else rng.choice([.002, .005, .01]))) for i in range(n)]
    tr[0]["sg"] = "nan"
    tr[-1]["sg"] = "1/128"
    a, b = n // 3, 2 * n // 3
    lo, hi = ts[0], ts[-1]
    views = {"head": [str(lo - 1), str(max(ts[b], lo))], "tail": [str(ts[a]), str(hi + 1)]}
    return tr, views, dict(iv=str(10**9), ticks=3, vol="5", dollar="300", floor="1/256", tick=rng.choice(["1/4", "1/8", "1/2", "1"]))


def rand_hist(rng, n):
    h, nb = [], 0
    for _ in range(n):
        r = rng.random()
        if nb == 0 or (r < .12 and nb < 3):
            h.append(dict(op="new", arg=rng.choice(["time", "tick", "volume", "dollar", "cusum", "cusum"]), b=0))
            nb += 1
        elif r < .25:
            h.append(dict(op="view", arg=rng.choice(["all", "head", "tail"]), b=0))
        elif r < .3:
            h.append(dict(op="badview", arg="", b=0))
        elif r < .38:
            h.append(dict(op="trades", arg="", b=0))
        else:
            h.append(dict(op="call", arg=rng.choice(TABLES), b=rng.randrange(nb) + 1))
    return h


def check(c):
    docs = []
    for kinds in (S("time", "cusum"), S("tick", "dollar")) if c.quick else (S("time", "cusum"), S("tick", "dollar"), S("volume", "cusum")):
        r = c.mc("MCBuilder", MC.format(n=4 if c.quick else 5, kinds=kinds, views=S("head", "tail")), name="call histories " + kinds)
        d = sorted(r["docs"], key=lambda d: vk.json.dumps(d, sort_keys=True))
        cap = 700 if c.quick else 8000
        c.cov["parts"].append({"behaviours": kinds, "generated": len(d), "replayed": len(d[::-(-len(d) // cap)])})
        docs += d[::-(-len(d) // cap)]
    cases = []
    for h in docs + [rand_hist(c.rng, c.rng.choice([6, 10, 16])) for _ in range(250 if c.quick else 3000)]:
        tr, views, par = data(c.rng)
        cases.append(dict(tr=tr, views=[[k, v] for k, v in views.items()], par=par, hist=h))
    runs = []
    jit = cases[-120:] + cases[:700:17]
    for j, cs in ((False, cases), (True, jit)):
        outs = c.real("builder", cs, jit=j, procs=8 if not j else 3)
        runs += [dict(**{"in": dict(hist=x["hist"]), "case": x}, out=o, jit=j) for x, o in zip(cs, outs)]
    c.judge("BuilderTrace", "builder", runs, label="call histories")
    good = next((r for r in runs if "got" in r["out"] and r["in"]["hist"][-1]["op"] == "call"), None)
    if not c.viol:
        c.canary("BuilderTrace", good, [
            ("table differs", lambda r: r["out"]["got"].__setitem__(-1, "other")),
            ("caller's array changed", lambda r: r["out"]["touched"].append("prices"))])
    return dict(assumptions=["a fresh builder on a copy of the same trades is the reference; its values are decided by C01 to C07"])


if __name__ == "__main__":
    vk.main(check, sys.argv.pop(1))
