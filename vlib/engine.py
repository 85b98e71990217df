"""Runs one check: builds, shards, shrinks crashes, confirms failures, writes evidence and replay files."""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from vlib import build

VERIF = build.VERIF
PY = "/opt/veriftools/pyvenv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable
WORK = os.environ.get("VT_WORK", os.path.join(VERIF, "work"))
EVIDENCE = os.environ.get("VT_EVIDENCE", os.path.join(VERIF, "evidence"))
SHARDS = 8


def _libs():
    out = []
    for n in ("libasan.so", "libstdc++.so.6"):
        p = subprocess.run(["gcc", "-print-file-name=" + n], capture_output=True, text=True).stdout.strip()
        out.append(os.path.realpath(p))
    return out


ENDLESS = "does not terminate"


class Check:
    def __init__(self, prop_id, tier, seed):
        self.id = prop_id
        self.tier = tier
        self.seed = seed
        sys.path.insert(0, VERIF)
        self.prop = importlib.import_module("props." + prop_id.lower()).PROP
        self.variant = getattr(self.prop, "VARIANT", "plain")
        self.start = time.time()
        os.makedirs(WORK, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop_id + "-", dir=WORK)

    # ---- processes ------------------------------------------------------------------------------

    def build(self):
        names = set()
        for b in self.prop.BACKENDS:
            names |= set(self.modules_for(b))
        specs = [(n, self.variant) for n in names] + [("shim", "plain")]
        specs += [(n, "plain") for n in getattr(self.prop, "EXTRA_BUILDS", ())]
        self.paths = build.build_all(specs)
        self.cfgs = {}
        for b in set(self.prop.BACKENDS):
            cfg = {"backend": b, "modules": {m: self.paths[(m, self.variant)] for m in self.modules_for(b)},
                   "shim": self.paths[("shim", "plain")], "tier": self.tier,
                   "extra": {n: self.paths[(n, "plain")] for n in getattr(self.prop, "EXTRA_BUILDS", ())},
                   "shrink_s": 20 if self.tier == "quick" else 60,
                   "mem_gb": None if self.variant == "asan" else getattr(self.prop, "MEM_GB", 3)}
            p = os.path.join(self.dir, "cfg-%s.json" % b)
            with open(p, "w") as fh:
                json.dump(cfg, fh)
            self.cfgs[b] = p

    def modules_for(self, b):
        return getattr(self.prop, "MODULES", {}).get(b, [b])

    def env(self, tag, cpu=None):
        e = dict(os.environ)
        for k in ("VT_TRACE",):
            e.pop(k, None)
        e["PYTHONHASHSEED"] = "0"
        tmp = os.path.join(self.dir, "tmp-" + tag)
        os.makedirs(tmp, exist_ok=True)
        e["TMPDIR"] = tmp
        e["LC_ALL"] = "C.UTF-8"
        if cpu:
            e["VT_CASE_CPU"] = str(cpu)
        pre = [self.paths[("shim", "plain")]]
        if self.variant == "asan":
            pre = _libs() + pre
            e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                                 "max_allocation_size_mb=2000:hard_rss_limit_mb=3000:symbolize=0:"
                                 "detect_odr_violation=0:handle_abort=0")
        e["LD_PRELOAD"] = " ".join(pre)
        return e

    def spawn(self, args, tag, cpu=None):
        log = open(os.path.join(self.dir, "log-" + tag), "w")
        return subprocess.Popen([PY, "-B", os.path.join(VERIF, "vlib", "worker.py")] + args, stdout=log, stderr=log,
                                env=self.env(tag, cpu), cwd=self.dir, start_new_session=True)

    def log(self, tag, n=1500):
        try:
            with open(os.path.join(self.dir, "log-" + tag), errors="replace") as fh:
                return fh.read()[-n:]
        except OSError:
            return ""

    def replay_file(self, backend, path, tag="replay", timeout=150, cpu=None):
        """0 holds, 1 fails, negative or other: crash; None: timeout."""
        p = self.spawn(["replay", self.id, self.cfgs[backend], path], tag, cpu)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return None, "timeout"
        finally:
            shutil.rmtree(os.path.join(self.dir, "tmp-" + tag), ignore_errors=True)
        return rc, self.log(tag)

    def write_cases(self, backend, cases, msg, path):
        with open(path, "w") as fh:
            json.dump({"property": self.id, "backend": backend, "seed": self.seed, "message": msg, "cases": cases},
                      fh, indent=1)

    # ---- failures -------------------------------------------------------------------------------

    @staticmethod
    def bad(rc):
        """A crash, a hang (SIGPROF) or a reported failure; an error of the harness is none of them."""
        return rc is not None and (rc == 1 or rc < 0 or rc in (99, 134, 139))

    def confirm(self, backend, cases, msg, times=3, tries=3):
        """Fails `times` times in fresh processes (within `tries` attempts)?"""
        path = os.path.join(self.dir, "confirm.json")
        self.write_cases(backend, cases, msg, path)
        last, bad = None, 0
        for k in range(tries):
            rc, log = self.replay_file(backend, path)
            if self.bad(rc):
                bad += 1
                last = (rc, log)
                if bad == times:
                    return last
            elif bad + tries - k - 1 < times:
                return None
        return None

    def shrink_crash(self, backend, case, rc0, budget):
        """Structural reduction of a crashing case in fresh processes."""
        end = time.time() + budget
        path = os.path.join(self.dir, "shrink.json")

        def crashes(c):
            self.write_cases(backend, [c], "", path)
            rc, _ = self.replay_file(backend, path, "shrink")
            return rc == rc0

        def spots(x, at=()):
            if isinstance(x, list):
                if len(x) > 0:
                    yield at, len(x)
                for i, v in enumerate(x):
                    yield from spots(v, at + (i,))
            elif isinstance(x, dict):
                for k in sorted(x):
                    yield from spots(x[k], at + (k,))

        def cut(x, at, i, j):
            x = json.loads(json.dumps(x))
            y = x
            for k in at:
                y = y[k]
            del y[i:j]
            return x

        changed = True
        while changed and time.time() < end:
            changed = False
            for at, n in sorted(spots(case), key=lambda s: -s[1]):
                if time.time() > end:
                    break
                size = n
                while size >= 1 and time.time() < end:
                    i = 0
                    while i < n and time.time() < end:
                        try:
                            c = cut(case, at, i, min(n, i + size))
                        except (KeyError, IndexError, TypeError):
                            break
                        if crashes(c):
                            case = c
                            n -= min(size, n - i)
                            changed = True
                        else:
                            i += size
                    size //= 2
        return case

    def endless(self, backend, case, msg):
        """The shard gave the case up: does it not end in four times that time either?"""
        path = os.path.join(self.dir, "confirm.json")
        self.write_cases(backend, [case], msg, path)
        rc, log = self.replay_file(backend, path, timeout=220, cpu=120 / getattr(self.prop, "CPU_FACTOR", 1))
        return (rc, log) if self.bad(rc) else None

    def settle(self, found):
        """found: list of (backend, cases list candidates, msg). Returns (path, msg) of a confirmed failure or None."""
        for b, cands, msg in [f for f in found if f[2].startswith(ENDLESS)][:2]:
            got = self.endless(b, cands[0][0], msg)
            if got:
                return self.keep(b, cands[0], msg, *got)
        found = [f for f in found if not f[2].startswith(ENDLESS)]
        todo = [(b, cases, msg, 3) for b, cands, msg in found for cases in cands]
        # a failure that depends on something no case controls (uninitialised memory): three failures out of ten
        todo += [(b, cands[0], msg, 10) for b, cands, msg in found]
        end = time.time() + 240
        for backend, cases, msg, tries in todo:
            if time.time() > end:
                break
            if True:
                got = self.confirm(backend, cases, msg, 3, tries)
                if got is None:
                    continue
                rc, log = got
                if len(cases) > 1:
                    cases = self.shrink_history(backend, cases, 60)
                elif rc != 1:
                    smaller = self.shrink_crash(backend, cases[0], rc, 30)
                    if smaller != cases[0] and self.confirm(backend, [smaller], msg):
                        cases = [smaller]
                return self.keep(backend, cases, msg, rc, log)
        return None

    def keep(self, backend, cases, msg, rc, log):
        os.makedirs(os.path.join(VERIF, "work", "replay"), exist_ok=True)
        path = os.path.join(VERIF, "work", "replay", "%s-seed%d-%s.json" % (self.id, self.seed, self.tier))
        text = msg if rc == 1 else "%s; process ended with %s" % (msg, rc)
        self.write_cases(backend, cases, text, path)
        return path, text + "\n" + log.strip()[-800:]

    def shrink_history(self, backend, cases, budget):
        end = time.time() + budget
        path = os.path.join(self.dir, "shrink.json")

        def fails(cs):
            self.write_cases(backend, cs, "", path)
            return self.bad(self.replay_file(backend, path, "shrink")[0])

        size = len(cases) // 2
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(cases) and time.time() < end:
                c = cases[:i] + cases[i + size:]
                if c and fails(c):
                    cases = c
                else:
                    i += size
            size //= 2
        return cases

    # ---- the check ------------------------------------------------------------------------------

    def run(self):
        try:
            return self._run()
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def _run(self):
        self.build()
        t_build = time.time() - self.start
        quick = self.tier == "quick"
        n = self.prop.QUICK if quick else self.prop.THOROUGH
        seconds = getattr(self.prop, "QUICK_S", 40) if quick else getattr(self.prop, "THOROUGH_S", 480)
        procs = []
        for i in range(SHARDS):
            b = self.prop.BACKENDS[i % len(self.prop.BACKENDS)]
            out = os.path.join(self.dir, "out-%d.json" % i)
            p = self.spawn(["shard", self.id, self.cfgs[b], str(i), str(self.seed), str(n), str(seconds), out],
                           "shard%d" % i)
            procs.append((i, b, out, p))
        deadline = time.time() + seconds + 200
        extra = None
        if hasattr(self.prop, "extra"):
            extra = self.prop.extra(self)
        ev = {"evaluations": 0, "skipped": 0, "events": {}, "hashes": set(), "samples": [], "slowest": 0.0}
        found, errors, per_backend = [], [], {}
        for i, b, out, p in procs:
            try:
                rc = p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = "timeout"
            shutil.rmtree(os.path.join(self.dir, "tmp-shard%d" % i), ignore_errors=True)
            if rc in (0, 1) and os.path.exists(out):
                with open(out) as fh:
                    s = json.load(fh)
                ev["evaluations"] += s["evaluations"]
                ev["skipped"] += s["skipped"]
                ev["slowest"] = max(ev["slowest"], s.get("slowest", 0))
                ev["hashes"] |= set(s["hashes"])
                ev["samples"] += s["samples"][:1]
                per_backend[b] = per_backend.get(b, 0) + s["evaluations"]
                for k, v in s["events"].items():
                    ev["events"][k] = ev["events"].get(k, 0) + v
                if s["failure"]:
                    f = s["failure"]
                    h = [json.loads(t) for t in f["history"]]
                    cands = [[f["case"]], [h[-1]]] + [h[-k:] for k in (2, 10, 60, 400, 10 ** 6) if len(h) >= k or k == 10 ** 6]
                    found.append((b, cands, f["msg"]))
                continue
            log = self.log("shard%d" % i)
            cur = out + ".cur"
            case = None
            if os.path.exists(cur):
                try:
                    with open(cur) as fh:
                        case = json.load(fh)
                except ValueError:
                    pass
            what = {-signal.SIGPROF: ENDLESS}.get(rc, "crashes (%s)" % rc)
            if case is not None and (rc == "timeout" or self.bad(rc)):
                found.append((b, [[case]], what + " " + log[-400:].strip()))
            else:
                errors.append("shard %d (%s): exit %s: %s" % (i, b, rc, log[-600:]))
        if extra is not None:
            found += extra(ev, per_backend, errors)
        found.sort(key=lambda f: len(json.dumps(f[1][0])))
        settled = self.settle(found) if found else None
        slow = [f for f in found if f[2].startswith(ENDLESS)]
        if slow and not settled:
            ev["events"]["cases given up for their cost, which did end"] = len(slow)
        self.write_evidence(ev, per_backend, t_build, settled)
        if settled:
            path, msg = settled
            print("VIOLATION property=%s replay=%s" % (self.id, path))
            print(msg)
            return 1
        if len(found) > len(slow):
            print("NOTE %d failure(s) did not reproduce from their saved cases: %s"
                  % (len(found), found[0][2][:500]))
            return 3
        if errors:
            print("ERROR " + "\n".join(errors))
            return 3
        print("OK property=%s tier=%s seed=%d cases=%d nontrivial=%d build=%.0fs total=%.0fs"
              % (self.id, self.tier, self.seed, ev["evaluations"], len(ev["hashes"]), t_build,
                 time.time() - self.start))
        return 0

    def write_evidence(self, ev, per_backend, t_build, settled):
        os.makedirs(EVIDENCE, exist_ok=True)
        doc = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": "exploration",
               "coverage": {"evaluations": ev["evaluations"], "distinct_nontrivial": len(ev["hashes"]),
                            "rule": self.prop.RULE, "samples": ev["samples"][:4] or ["none"],
                            "outside_domain": ev["skipped"], "slowest_case_cpu_s": round(ev["slowest"], 2), "per_backend": per_backend,
                            "events": dict(sorted(ev["events"].items()))},
               "assumptions": list(getattr(self.prop, "ASSUMPTIONS", [])),
               "wall_s": round(time.time() - self.start, 1), "violations": 1 if settled else 0}
        with open(os.path.join(EVIDENCE, self.id + ".json"), "w") as fh:
            json.dump(doc, fh, indent=1)
