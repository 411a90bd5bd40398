"""C14: stored time bars (BarStore.tla)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vk

MC = '''SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS MaxL = {n}
 Ts = {ts}
 Emits = TRUE
INVARIANTS OnceI ConservesI PrintRun
'''
FEB = 1706745600 * 10**9
DAY = 86400 * 4
MONTHS = ["2024-01", "2024-02", "2024-03"]


def reads(rng, n, a, b):
    out = [dict(op="keys")]
    for i in range(n):
        lo, hi = sorted([rng.randrange(a, b), rng.randrange(a, b)])
        lo, hi = rng.choice([[], [lo], [lo - lo % 4], [-DAY], [0]]), rng.choice([[], [hi], [hi - hi % 4], [0], [0], [-DAY], [hi]])
        if lo and hi and lo[0] > hi[0]:
            lo = []
        out.append(dict(op="read", lo=lo, hi=hi, tf=rng.choice([0, 0, 1, 2, 5, 10, 60, 300, 3600, 86400, 86400]), form=rng.choice(["text", "ts", "py"])))
    return out


def finish(rng, hist, a, b, n):
    h = []
    for e in hist:
        e = dict(e, keys=e.get("keys", []), short=rng.random() < .4)
        h.append(e)
        if rng.random() < .25:
            h += reads(rng, 1, a, b)
    h += reads(rng, n, a, b)
    return dict(base=str(FEB), hist=h)


def rand_tr(rng, lo, hi):
    n = rng.choice([1, 2, 4, 10, 30])
    ts = sorted(rng.randrange(lo, hi) for _ in range(n))
    return [dict(t=t, p=rng.randrange(90, 111), q=rng.randrange(1, 30)) for t in ts]


def rand_case(rng):
    span = rng.choice([12, 60, 200])
    whole = rng.random() < .03 and span == 12
    hist = []
    for _ in range(rng.choice([2, 3, 4, 6])):
        r = rng.random()
        k = rng.choice(MONTHS[:2])
        if r < .45 or not hist:
            tr = rand_tr(rng, -span, 0) if k == MONTHS[0] else rand_tr(rng, 0, span)
            if rng.random() < .4:  # trades on the month's edges
                tr = sorted(tr + [dict(t=rng.choice([-1, -4]) if k == MONTHS[0] else rng.choice([0, 1, 4]), p=100, q=1)], key=lambda x: x["t"])
            hist.append(dict(op="save", key=k, tr=tr, over=True))
        elif r < .7:
            hist.append(dict(op="process", key=rng.choice(MONTHS[:2] + [MONTHS[2]] * (rng.random() < .2)), tr=[], over=rng.random() < .5))
        else:
            hist.append(dict(op="all", key="", tr=[], over=rng.random() < .5,
                             keys=rng.choice([[], [], [MONTHS[0]], [MONTHS[1]], MONTHS[:2], [MONTHS[2]]])))
    hist.append(dict(op="all", key="", tr=[], over=rng.random() < .5, keys=[]))
    return finish(rng, hist, -span - 4, span + 4, 8)


def check(c):
    r = c.mc("MCBarStore", MC.format(n=3, ts="{11, 12, 15, 16, 17, 20}" if c.quick else "{7, 11, 12, 14, 15, 16, 17, 20, 22}"), name="bar store histories")
    docs = sorted(r["docs"], key=lambda d: vk.json.dumps(d, sort_keys=True))
    mine = c.rng.sample(docs, min(len(docs), 150 if c.quick else 3000))
    c.cov["parts"].append({"behaviours": "bar store histories", "generated": len(docs), "replayed": len(mine)})
    cases = [finish(c.rng, d, -10, 8, 5) for d in mine] + [rand_case(c.rng) for _ in range(130 if c.quick else 2500)]
    outs = c.real("barstore", cases, procs=8)
    runs = [dict(**{"in": dict(months=MONTHS, hist=x["hist"]), "case": x}, out=o) for x, o in zip(cases, outs)]
    c.judge("BarStoreTrace", "barstore", runs, label="bar store histories")
    if not c.viol:
        good = next(r for r in runs if any(len(s.get("rows", [])) > 1 for s in r["out"].get("steps", [])))
        k = next(i for i, s in enumerate(good["out"]["steps"]) if len(s.get("rows", [])) > 1)

        def at(f):
            return lambda r: f(r["out"]["steps"][k]["rows"])
        c.canary("BarStoreTrace", good, [
            ("second missing", at(lambda s: s.pop())), ("second twice", at(lambda s: s.append(dict(s[-1])))),
            ("volume", at(lambda s: s[0].__setitem__("v", "12345"))), ("open", at(lambda s: s[-1].__setitem__("o", "12345")))])
    return dict(assumptions=["the trades of a month stay within it, but for equal edges", "timeframes that divide a day"])


if __name__ == "__main__":
    vk.main(check, sys.argv.pop(1))
