"""One shard of a check (or one replay), in its own process.

worker.py shard  PROP BACKENDPATHS.json SHARD SEED N SECONDS OUT   generate and run cases
worker.py replay PROP BACKENDPATHS.json FILE                       run the cases of a replay file
Exit status: 0 nothing found, 1 failure (described in OUT / on stdout). Anything else is a crash or a hang
of the case written to OUT.cur.
"""
import collections
import ctypes
import importlib
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import time as _time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

from vlib import core  # noqa: E402

CASE_CPU_S = float(os.environ.get("VT_CASE_CPU", "30"))
MONO = _time.monotonic


class Worker:
    def __init__(self, prop, cfg, scratch):
        self.prop = importlib.import_module("props." + prop.lower()).PROP
        self.cfg = cfg
        self.backend = cfg["backend"]
        self.mods = {}
        for name, path in cfg["modules"].items():
            leaf = os.path.basename(path)[:-3]
            self.mods[name] = core.load_module(path, leaf)
        self.api = self.mods.get(self.backend)
        self.scratch = scratch
        self.lib = ctypes.CDLL(cfg["shim"])
        self.libc = ctypes.CDLL(None)
        self.libc.srand.argtypes = [ctypes.c_uint]
        self.lib.vt_set_time.argtypes = [ctypes.c_long]

    def set_time(self, t):
        self.lib.vt_set_time(int(t))

    def run(self, case, st=None):
        """Runs one case; raises on violation. Returns the Case."""
        st = st or core.Case(self)
        self.set_time(1000000000)
        self.libc.srand(1)
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S * getattr(self.prop, "CPU_FACTOR", 1))
        try:
            self.prop.run(self.api, case, st)
        finally:
            st.close()
        return st


class Enough(BaseException):
    pass


def shard(w, shard_no, seed, n, seconds, out):
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed

    tier = w.cfg["tier"]
    stats = {"evaluations": 0, "skipped": 0, "events": {}, "hashes": set(), "samples": [], "failure": None,
             "slowest": 0}
    start = MONO()
    best = {"case": None, "len": None, "msg": None, "t": None}
    recent, held = collections.deque(), [0]
    cur = open(out + ".cur", "w")
    dumps = json.dumps

    def one(case):
        text = dumps(case, sort_keys=True)
        if best["t"] is None:
            if MONO() - start > seconds:
                raise Enough()
            recent.append(text)
            held[0] += len(text)
            while held[0] > 40000000:
                held[0] -= len(recent.popleft())
        elif MONO() - best["t"] > w.cfg.get("shrink_s", 20):
            raise Enough()
        cur.seek(0)
        cur.write(text)
        cur.truncate()
        cur.flush()
        case = json.loads(text)
        st = core.Case(w)
        cpu = _time.process_time()
        try:
            w.run(case, st)
        except core.Skip:
            stats["skipped"] += 1
            return
        except Exception as e:
            msg = "%s: %s" % (type(e).__name__, str(e)[:600])
            if not isinstance(e, core.Violation):
                tb = traceback.extract_tb(e.__traceback__)[-1]
                msg += " (at %s:%d)" % (os.path.basename(tb.filename), tb.lineno)
            if best["t"] is None:
                best["t"] = MONO()
                best["history"] = list(recent)
            if best["len"] is None or len(text) <= best["len"]:
                best.update(case=case, len=len(text), msg=msg)
            raise
        if best["t"] is None:
            stats["slowest"] = max(stats["slowest"], _time.process_time() - cpu)
            stats["evaluations"] += 1
            for k, v in st.events.items():
                stats["events"][k] = stats["events"].get(k, 0) + v
            if st.nontrivial:
                h = core.case_hash(case)
                if h not in stats["hashes"]:
                    stats["hashes"].add(h)
                    if len(stats["samples"]) < 3 or (len(stats["samples"]) < 6 and len(stats["hashes"]) % 97 == 0):
                        if len(text) < 3000:
                            stats["samples"].append(case)

    strat = w.prop.strategy(tier, w.backend)

    # several independent rounds: one Hypothesis run concentrates on few neighbourhoods
    rounds = max(1, n // 400)
    per = -(-n // rounds)
    try:
        for r in range(rounds):
            @hseed((seed * 1000003 + shard_no * 1009 + r) % (1 << 62))
            @settings(max_examples=per, database=None, deadline=None, derandomize=False,
                      suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink),
                      report_multiple_bugs=False, print_blob=False, verbosity=__import__("hypothesis").Verbosity.quiet)
            @given(strat)
            def test(case):
                one(case)
            try:
                test()
            except Enough:
                break
            except Exception:
                if best["t"] is None:
                    raise
                break
            if best["t"] is not None:
                break
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    if best["t"] is not None:
        stats["failure"] = {"case": best["case"], "msg": best["msg"], "history": best["history"]}
    stats["hashes"] = sorted(stats["hashes"])
    stats["wall"] = MONO() - start
    with open(out, "w") as fh:
        json.dump(stats, fh)
    return 1 if stats["failure"] else 0


def replay(w, path):
    with open(path) as fh:
        doc = json.load(fh)
    cases = doc["cases"]
    for i, case in enumerate(cases):
        try:
            w.run(case)
        except core.Skip:
            continue
        except Exception as e:
            print("FAILS case %d of %d: %s: %s" % (i + 1, len(cases), type(e).__name__, str(e)[:1500]))
            if os.environ.get("VT_TRACE"):
                traceback.print_exc()
            return 1
    print("holds for the %d case(s) of the replay file" % len(cases))
    return 0


def main():
    mode, prop, cfgp = sys.argv[1:4]
    with open(cfgp) as fh:
        cfg = json.load(fh)
    lim = cfg.get("mem_gb")
    if lim:
        resource.setrlimit(resource.RLIMIT_AS, (int(lim * (1 << 30)), int(lim * (1 << 30))))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
    sys.setrecursionlimit(10000)
    scratch = tempfile.mkdtemp(prefix="vt-")
    # the library prints progress on stdout with verbose=True: keep ours apart
    real = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    try:
        if mode == "shard":
            shard_no, seed, n = int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6])
            seconds, out = float(sys.argv[7]), sys.argv[8]
            os.dup2(null, 1)
            w = Worker(prop, cfg, scratch)
            rc = shard(w, shard_no, seed, n, seconds, out)
        else:
            os.dup2(null, 1)
            sys.stdout = os.fdopen(real, "w")
            w = Worker(prop, cfg, scratch)
            rc = replay(w, sys.argv[4])
            sys.stdout.flush()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    os._exit(rc) if rc in (0, 1) else sys.exit(rc)


if __name__ == "__main__":
    main()
