"""C09, C10: preprocessing of raw trades (Trades.tla)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vk
from barindex import S

MC = '''SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS MaxN = {n}
 IdSet = {ids}
 TsSet = {ts}
 PxSet = {px}
 AmSet = {am}
 MkSet = {mk}
 Ress = {res}
 Emits = TRUE
INVARIANTS Conserved Chronological Maximal FlagSound GapSound PrintRun
'''
B = 1_700_000_000


def rand_raw(rng):
    unit = rng.choice(["s", "ms", "us", "ns"])
    per = {"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9}[unit]
    n = rng.choice([1, 2, 4, 8, 16, 30, 60])
    t = (rng.choice([B, B, B, 1_050_000_000, 3_900_000_000]) + rng.randrange(0, 10**6)) * per + (rng.randrange(0, per) if per > 1 else 0)
    i, p, rows = rng.randrange(1, 1000) + rng.choice([0, 0, 2**24, 2**31 - 20, 5 * 10**9, 2**53]), rng.randrange(50, 200), []
    gaps = rng.random() < .6
    amounts = [.5, 1, 2, 3.25, .125, 40] + rng.choice([[], [], [12345.67, 70001.5, 65521., 2049.], [1.2e-7, 3e-5, 1e-8]])
    tick = rng.choice([.25, .25, .25, 1e-8, .01])  # 1e-8: the smallest tick of an exchange
    for _ in range(n):
        r = rng.random()
        t += 0 if r < .45 else rng.choice([1, 1, max(1, per // 1000), per, 2 * per]) if r < .9 else rng.choice([59, 60, 61, 200]) * per + rng.choice([0, 0, 1])
        if rng.random() < .4:
            p += rng.choice([-1, 1, 2, -2])
        rows.append(dict(id=str(i), ts=str(t), px=vk.num(max(p, 1) * tick * (1 + rng.choice([0] * 9 + [2e-16]))), am=vk.num(rng.choice(amounts)), mk=rng.random() < .5))
        if rng.random() < .08:
            rows.append(dict(rows[-1]))
            if rng.random() < .7:  # a duplicate that says something else: the first occurrence counts
                rows[-1]["am"] = "77"
                rows[-1]["ts"] = str(t + rng.choice([0, 1, 100 * per]))
        i += 1 if not gaps or rng.random() < .85 else rng.choice([2, 3, 10])
    how = rng.random()
    if how < .4:
        k = max(1, len(rows) // 3)
        j = rng.randrange(0, len(rows))
        rows = rows[j:] + rows[:j] if how < .2 else [r for b in range(0, len(rows), k) for r in reversed(rows[b:b + k])]
    elif how < .6:
        rng.shuffle(rows)
    elif how < .75:  # timestamps out of order against the ids
        for _ in range(3):
            a, b = rng.randrange(len(rows)), rng.randrange(len(rows))
            rows[a]["ts"], rows[b]["ts"] = rows[b]["ts"], rows[a]["ts"]
    maker = rng.random() < .7
    if not maker:
        for r in rows:
            r["mk"] = False
    return dict(inp=dict(unit=rng.choice([unit, "", unit]), res=rng.choice(["", "", "s", "ms", "us", "ns"]), maker=maker), raw=rows)


def check(c):
    n = 3
    kw = dict(n=n, ids=S(1, 2, 4), ts=S(0, 61), px=S(1, 2), am=S(1, 5) if not c.quick else S(1), mk="BOOLEAN".join(["", ""]) or "", res=S(""))
    kw["mk"] = "{TRUE, FALSE}"
    r = c.mc("MCTrades", MC.format(**kw), name="preprocessing")
    docs = sorted(r["docs"], key=lambda d: vk.json.dumps(d, sort_keys=True))
    cap = 7000 if c.quick else 40000
    tot = len(docs)
    docs = docs[::-(-tot // cap)]
    for d in docs:  # distinguishable amounts; the model needs only one
        for k, x in enumerate(d["raw"]):
            x["ts"] = str(int(x["ts"]) + B)
            x["am"] = str(2 ** k)
    c.cov["parts"].append({"behaviours_generated": tot, "behaviours_replayed": len(docs), "exhaustive": len(docs) == tot})
    rnd = [rand_raw(c.rng) for _ in range(700 if c.quick else 7000)]
    runs = []
    for jit, cs in ((False, docs + rnd), (True, rnd[:400] + docs[::31])):
        outs = c.real("trades", cs, jit=jit, procs=6 if not jit else 3)
        runs += [dict(**{"in": x}, out=o, jit=jit) for x, o in zip(cs, outs)]
    integrity = {"integrity_flag", "missing_pct", "discontinuities"}
    c.judge("TradesTrace", "trades", runs, label="preprocessing", only=lambda x: (x in integrity) == (c.pid == "C10"))
    if not c.viol:
        def first(f):
            return lambda r: f(r["out"])
        good = next(r for r in runs if len(r["out"]["rows"]) > 2 and r["out"]["disc"] and r["in"]["inp"]["maker"])
        c.canary("TradesTrace", good, [
            ("side flipped", first(lambda o: o["rows"][0].__setitem__("side", "-1" if o["rows"][0]["side"] == "1" else "1"))),
            ("amount changed", first(lambda o: o["rows"][1].__setitem__("am", "1234"))),
            ("trade lost", first(lambda o: o["rows"].pop())),
            ("discontinuity lost", first(lambda o: o["disc"].pop())),
            ("flag forgotten", first(lambda o: o.__setitem__("ok", "unknown"))),
            ("missing share", first(lambda o: o.__setitem__("missing", vk.num(vk.flt(o["missing"]) + 1)))),
            ("late timestamp", first(lambda o: o["rows"][-1].__setitem__("ts", str(int(o["rows"][-1]["ts"]) + 1))))])
    return dict(assumptions=["trade ids are integers", "amounts are float32 after preprocessing (tolerance 1e-6)"])


if __name__ == "__main__":
    vk.main(check, sys.argv.pop(1))
