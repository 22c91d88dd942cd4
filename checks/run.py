#!/usr/bin/env python3
"""
checks/run.py ID            run the check of property ID (VERIF_TIER, VERIF_SEED)
checks/run.py --replay F    execute a saved script on the code and show TLC's verdict

Exit 0: the property held on everything explored; 1: VIOLATION printed; 2: the check
itself failed.
"""
import importlib
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import vlib  # noqa: E402
import plans  # noqa: E402


def replay(path):
    with open(path) as f:
        d = json.load(f)
    b = vlib.Bench("replay")
    try:
        s = dict(d["script"])
        s["id"] = "replay"
        tr, _ = b.record(d["domain"], "replay", 0, 1, 60, scripts=[s])
        for e in tr[0]["ev"][-6:]:
            print(json.dumps(vlib.brief(e)))
        rej, _, _ = b.validate(d["module"], tr, "replay")
        print("rejected: %s" % rej["replay"] if rej else "accepted")
        return 1 if rej else 0
    finally:
        b.close()


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    check = vlib.Check(pid)
    try:
        return plans.run(check)
    finally:
        check.bench.close()


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)
