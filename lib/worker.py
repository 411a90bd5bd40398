"""Runs one harness on its cases, in a process of its own: worker.py HARNESS IN OUT (ndjson)."""
import importlib
import json
import os
import sys
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FMK_REPO", "/repo")
sys.path[:0] = [REPO, os.path.join(VERIF, "lib"), os.path.join(VERIF, "harness")]
warnings.simplefilter("ignore")


def main():
    import numpy as np
    np.seterr(all="ignore")
    import logging
    logging.disable(logging.CRITICAL)
    try:
        import finmlkit
        assert os.path.realpath(finmlkit.__file__).startswith(os.path.realpath(REPO) + "/"), finmlkit.__file__
        mod = importlib.import_module(sys.argv[1])
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(3)
    with open(sys.argv[3], "w") as out:
        for line in open(sys.argv[2]):
            d = json.loads(line)
            try:
                r = mod.run(d["case"])
            except mod_error(mod):
                import traceback
                traceback.print_exc()
                sys.exit(3)
            except Exception as e:
                if os.environ.get("FMK_DEBUG"):
                    import traceback
                    traceback.print_exc()
                r = {"exc": type(e).__name__, "msg": str(e)[:300]}
            out.write(json.dumps({"i": d["i"], "out": r}) + "\n")
            out.flush()


def mod_error(mod):
    return getattr(mod, "HarnessError", ())


main()
