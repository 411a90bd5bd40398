"""C30: requests that make no sense are refused and change nothing (Requests.tla)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vk

MC = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT MaxWrong = {n}\nINVARIANTS Classes Decided PrintRun\n"


def check(c):
    r = c.mc("MCRequests", MC.format(n=1 if c.quick else 2), name="requests")
    docs = sorted(r["docs"], key=lambda d: vk.json.dumps(d, sort_keys=True))
    by = {}
    for d in docs:
        by.setdefault((d["kind"], d["f"].get("what", ""), d["w"]), []).append(d)
    cases = []
    for k in sorted(by):
        cases += by[k] if len(by[k]) <= 60 or not c.quick else c.rng.sample(by[k], 60)
    c.cov["parts"].append({"behaviours": "requests", "generated": len(docs), "replayed": len(cases)})
    outs = c.real("asks", cases, procs=8)
    jits = c.rng.sample([x for x in cases if x["kind"] in ("filter", "param", "percount", "profile", "labels", "final", "indicator")], 60 if c.quick else 600)
    outj = c.real("asks", jits, jit=True, procs=6)
    runs = [{"in": dict(kind=x["kind"], f=x["f"]), "case": x, "out": o} for x, o in zip(cases, outs)]
    runs += [{"in": dict(kind=x["kind"], f=x["f"]), "case": x, "out": o, "jit": True} for x, o in zip(jits, outj)]
    c.judge("RequestsTrace", "asks", runs, label="requests")
    if not c.viol:
        bad = next(r for r in runs if not r["out"]["done"])
        good = next(r for r in runs if r["out"]["done"])
        c.canary("RequestsTrace", bad, [("carried out", lambda r: r["out"].update(done=True)), ("other error", lambda r: r["out"].update({"class": "OSError"})),
                                        ("changed", lambda r: r["out"].update(kept=False))])
        c.canary("RequestsTrace", good, [("refused", lambda r: r["out"].update(done=False, **{"class": "ValueError"}))])
    return dict(assumptions=["at most two reasons to refuse at once", "one concrete request for each combination of facts"])


if __name__ == "__main__":
    vk.main(check, sys.argv.pop(1))
