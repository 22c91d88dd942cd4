"""
python worker.py DOMAIN PROFILE SEED COUNT SECONDS OUT [SCRIPTS]

Runs under the python of the code under test: generates COUNT random scripts (stopping
after SECONDS), or executes the given scripts, records the traces in OUT.json and the
scripts in OUT.scripts.json.
"""
import importlib
import json
import os
import random
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))


def main():
    domain, profile, seed, count, seconds, out = sys.argv[1:7]
    end = time.time() + float(seconds)
    mod = importlib.import_module("dom_" + domain)
    traces, scripts = [], []
    if len(sys.argv) > 7:
        with open(sys.argv[7]) as f:
            todo = json.load(f)
        for s in todo:
            if time.time() > end:
                break
            t = mod.replay(s)
            t["id"] = s["id"]
            traces.append(t)
            scripts.append(s)
    else:
        for i in range(int(count)):
            if time.time() > end:
                break
            tid = "%s-%s-%d" % (profile, seed, i)
            rng = random.Random(tid)
            t, s = mod.generate(rng, profile)
            t["id"] = s["id"] = tid
            traces.append(t)
            scripts.append(s)
    with open(out + ".json", "w") as f:
        json.dump(traces, f)
    with open(out + ".scripts.json", "w") as f:
        json.dump(scripts, f)


main()
