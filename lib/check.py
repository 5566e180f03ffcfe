import importlib
import json
import os
import sys
import traceback

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.insert(0, os.path.join(os.path.dirname(here), "checks"))
import core  # noqa: E402


def main():
    pid = sys.argv[1]
    mode = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    keep = "keep" in sys.argv[3:]
    mod = importlib.import_module(pid.lower())
    rep = None
    tier = mode
    if mode == "replay":
        rep = json.load(open(sys.argv[3]))
        tier = rep["tier"]
    c = core.Ctx(pid, tier, int(os.environ.get("VERIF_SEED", "1")), keep)
    try:
        c.prepare()
        mod.build(c)
        if rep:
            exe, err = c.native()
            d = rep["data"]
            if not exe or "job" not in d:
                print(rep["text"], err)
                return 1 if rep["kind"] in ("generate", "compile") else 0
            rc, so, se = c.run_native(exe, d["job"], d["inputs"], race=rep["kind"] == "race")
            print(so, se)
            print(c.outcome(rc, so, se))
            return 0
        if c.jobs:
            c.run()
    except core.Broken as e:
        print("BROKEN:", e)
        return 2
    return c.finish()


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
