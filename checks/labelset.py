"""C31: label sets under call histories (LabelSet.tla)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vk

MC = '''SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS MaxL = {n}
 Lasts <- LastsV
INVARIANTS Together Covers PrintRun
'''
OPS = ["weigh", "labels", "returns", "events", "other"]


def case(rng, hist, small):
    if small:  # the model's three events: windows end at 2, 3 and 5
        unit = rng.choice([1, 2, 3])
        at, vb, lasts = [0, unit, 3 * unit], 2 * unit, [unit, 2 * unit, 4 * unit, 5 * unit + rng.randrange(3)]
    else:
        vb = rng.randrange(1, 6)
        at = sorted(rng.sample(range(1, 20), rng.randrange(1, 6)))
        lasts = [rng.choice([a + vb - 1, a + vb, a + vb + 1]) for a in at]
        lasts = sorted({m for m in lasts + [at[-1] + vb + 3, rng.randrange(1, 20)] if m > 0})
        hist = rand_hist(rng, rng.choice([5, 8, 12]), len(lasts))
    px, p = [], 100.0
    for _ in range(max(lasts) + 2):
        p += rng.choice([0, .25, -.25, .5, -.5, 1, -1])
        px.append(p)
    return dict(at=at, vb=vb, lasts=lasts, hist=hist, px=vk.nums(px), scale=rng.choice([1, 1, 4]), minc=rng.choice([0, 0, 1]), idx=rng.random() < .4, meta=rng.random() < .4,
                view=rng.random() < .5, norm=rng.random() < .5, minret=vk.num(rng.choice([0, .001])), tgt=vk.nums([rng.choice([.002, .005, .01]) for _ in at]))


def rand_hist(rng, n, m):
    return [dict(op="label", i=rng.randrange(m) + 1) if rng.random() < .4 else dict(op=rng.choice(OPS), i=0) for _ in range(n)]


def check(c):
    r = c.mc("MCLabelSet", MC.format(n=4 if c.quick else 5), name="label set histories")
    docs = sorted(r["docs"], key=lambda d: vk.json.dumps(d, sort_keys=True))
    docs = [d for d in docs if any(e["op"] == "label" for e in d)]
    mine = c.rng.sample(docs, min(len(docs), 1500 if c.quick else 15000))
    c.cov["parts"].append({"behaviours": "label set histories", "generated": len(docs), "replayed": len(mine)})
    cases = [case(c.rng, d, True) for d in mine] + [case(c.rng, None, False) for _ in range(600 if c.quick else 8000)]
    runs = []
    for j, cs in ((False, cases), (True, cases[-60:])):
        outs = c.real("labelset", cs, jit=j, procs=8 if not j else 3)
        runs += [{"in": dict(ends=[a + x["vb"] for a in x["at"]], lasts=x["lasts"], hist=x["hist"]), "case": x, "out": o, "jit": j} for x, o in zip(cs, outs)]
    c.judge("LabelSetTrace", "labelset", runs, label="label set histories")
    if not c.viol:
        good = next(r for r in runs if "refused" in r["out"]["got"] and r["out"]["got"][-1] != "refused")
        c.canary("LabelSetTrace", good, [
            ("answer differs", lambda r: r["out"]["got"].__setitem__(-1, "other")),
            ("carried out", lambda r: r["out"]["got"].__setitem__(r["out"]["got"].index("refused"), "0")),
            ("features changed", lambda r: r["out"]["touched"].append("features"))])
    return dict(assumptions=["a label set labelled once on the same trades is the reference; its labels and weights are decided by C15 and C16"])


if __name__ == "__main__":
    vk.main(check, sys.argv.pop(1))
