#!/usr/bin/env python3
"""run.py check Cxx            decide one property (VERIF_TIER=quick|thorough, VERIF_SEED=n)
run.py replay FILE            run a replay file against /repo's current tree
run.py setup                  build everything once
run.py all [Cxx ...]          every check, one after another (summary at the end)
"""
import json
import os
import sys
import time

VT = "/opt/veriftools/pyvenv/bin/python"
if os.path.exists(VT) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv"):
    os.execv(VT, [VT, "-B", os.path.abspath(__file__)] + sys.argv[1:])

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vlib import build, engine  # noqa: E402


def ids():
    with open(os.path.join(build.VERIF, "properties.jsonl")) as fh:
        return [json.loads(l)["id"] for l in fh if l.strip()]


def one(prop, tier, seed):
    for line in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, line))
    try:
        return engine.Check(prop, tier, seed).run()
    except build.BuildError as e:
        print("ERROR build: %s" % e)
        return 2


def known(prop):
    out = []
    p = os.path.join(build.VERIF, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as fh:
            for l in fh:
                l = l.strip()
                if l.startswith("finding: property=%s " % prop):
                    out.append(l.split(" ", 2)[2])
    return out


def main():
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cmd = sys.argv[1] if len(sys.argv) > 1 else ""
    if cmd == "check":
        rc = one(sys.argv[2], tier, seed)
        sys.stdout.flush()
        return rc
    if cmd == "replay":
        with open(sys.argv[2]) as fh:
            doc = json.load(fh)
        c = engine.Check(doc["property"], tier, seed)
        try:
            c.build()
            rc, log = c.replay_file(doc["backend"], os.path.abspath(sys.argv[2]), timeout=300, cpu=120)
            print(log.strip())
            if c.bad(rc):
                print("VIOLATION property=%s replay=%s" % (doc["property"], sys.argv[2]))
                return 1
            return 0 if rc == 0 else 3
        finally:
            import shutil
            shutil.rmtree(c.dir, ignore_errors=True)
    if cmd == "setup":
        specs = [(n, "plain") for n in ("py", "src", "hdr", "gen", "shim", "fuzz", "fuzzhdr")] + \
            [(n, "asan") for n in ("py", "src")]
        build.build_all(specs)
        return 0
    if cmd == "all":
        res = {}
        for p in (sys.argv[2:] or ids()):
            t = time.time()
            res[p] = (one(p, tier, seed), time.time() - t)
            sys.stdout.flush()
        for p, (rc, dt) in res.items():
            print("%s exit=%d %.0fs" % (p, rc, dt))
        return max(rc for rc, _ in res.values())
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
