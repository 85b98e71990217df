"""C26 Arbitrary serialized input is handled or rejected cleanly."""
import base64
import json
import os
import shutil
import subprocess
import tempfile

from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import ORDINARY, check

# ---- saved objects to start from ----------------------------------------------------------------


def disc(entry, mapping, base=2, counts=(1, 2), options=True, data=None):
    rams = []
    for i, m in enumerate(mapping):
        top = max(1, base ** min(len(m), 40))
        rams.append({(k * 7919 + i) % top: v for k, v in enumerate(counts)})
    d = {"entrySize": entry, "mapping": mapping, "count": sum(counts),
         "data": ".".join(ref.encode_ram(r) for r in rams) if data is None else data}
    if options:
        d.update({"ignoreZero": False, "base": base, "version": "1.6.3"})
    return d


def wis(classes, base=2, **kw):
    j = {"addressSize": 2, "base": base, "bleachingActivated": True, "completeAddressing": True, "confidence": 1,
         "ignoreZero": False, "indexes": [], "mapping": {}, "returnActivationDegree": False,
         "returnClassesDegrees": False, "returnConfidence": False, "verbose": False, "version": "1.6.3",
         "classes": classes}
    j.update(kw)
    return j


def clus(clusters, un=None, **kw):
    j = wis(None)
    for k in ("classes", "indexes", "mapping"):
        j.pop(k)
    j.update({"minScore": 0.1, "threshold": 10, "discriminatorsLimit": 3, "clusters": clusters})
    if un:
        j["unsupervisedCluster"] = un
    j.update(kw)
    return j


def seeds():
    """Inputs of the fuzz target: two bytes of choice and the text."""
    m1 = [[0, 1], [2, 3]]
    d1, d2 = disc(4, m1), disc(4, [[3, 1], [0, 2]], counts=(3,))
    w = wis({"a": dict(d1), "b": dict(d2)})
    cl = {"entrySize": 4, "discriminators": [disc(4, m1, options=False), disc(4, m1, options=False)]}
    c = clus({"a": cl, "b": dict(cl)}, cl)
    texts = {0: [w, wis({}), wis({}, indexes=[1, 0, 3, 2]), wis({}, mapping={"new": m1}), wis({"x": disc(3, [[0, 2]], 5)}, 5)],
             2: [c, clus({}), clus({"a": cl}, confidence=2)],
             4: [d1, d2, disc(5, [[0, 1, 2, 3, 4, 0]], 97), disc(70, [list(range(64))])]}
    out = []
    for k, js in texts.items():
        for i, j in enumerate(js):
            for ops in (0, 255, 37 + i):
                out.append(bytes([k, ops]) + json.dumps(j).encode())
    ram = ref.encode_ram({0: 1, 3: 2 ** 31 - 1, 2 ** 64 - 1: -1})
    for k in (5, 6):
        for t in ("", ram, ram + "." + ram, ".", ram + ".", "." + ram, ram[:-1], "no.wdpkg", ".wdpkg"):
            out.append(bytes([k, 1]) + t.encode())
    for t in (b"\0\xff", b"\x07\x80", b"\x03", b"\0", b"\x08\x01", b"\xff\x01\x02"):
        out.append(bytes([7, 1]) + base64.b64encode(t))
        out.append(bytes([8, 1]) + base64.b64encode(b"x") + b"#" + base64.b64encode(t) + b"." + b"#" +
                   base64.b64encode(t))
    for t in (b"", b"=", b"====", b"A===", b"AA==AA==", b"AAAA", b"\xff\xff\xff\xff", b"AAA"):
        out.append(bytes([9, 0]) + t)
    for j in (wis({"a": disc(4, m1, data="@FILE")}), disc(4, m1, data="@FILE"),
              clus({"a": {"entrySize": 4, "discriminators": [disc(4, m1, data="@FILE")]}})):
        out.append(bytes([10, 255]) + (ram + "." + ram + "\n").encode() + json.dumps(j).encode())
    return out


WORDS = ["addressSize", "base", "bleachingActivated", "completeAddressing", "confidence", "ignoreZero", "indexes", "mapping",
         "returnActivationDegree", "verbose", "version", "classes", "clusters", "unsupervisedCluster", "discriminators",
         "entrySize", "count", "data", "minScore", "threshold", "discriminatorsLimit", "null", "true", "false", "-1",
         "2147483647", "2147483648", "4294967296", "9223372036854775808", "1e308", "1e-9", "[]", "{}", "[[]]", "[[0]]", "\"\"", ".wdpkg",
         "AAAAAAAAAAABAAAA", "@FILE", "#", ".", "=", "=="]

# ---- Hypothesis: valid saves with damage at the level of their structure ------------------------

NUMBERS = [0, 1, -1, 2, 3, -2, 63, 64, 65, 127, 128, 255, 256, 65535, 65536, 1000000, 2 ** 31 - 1, -2 ** 31, 2 ** 31, 2 ** 32,
           2 ** 32 + 2, 2 ** 63 - 1, 2 ** 63, -2 ** 63, 0.5, -0.5, 1e30, 1e-30, 2.9]
OTHERS = [None, True, False, "", "x", "AAAA", "....", [], {}, [[]], [[0, 1]], [[0, -1]], [[100]], {"a": None}, {"": {}}, [None],
          {"a": [[0, 1]]}, {"a": [[9, 9]]}]


@st.composite
def text_data(draw):
    blk = st.lists(st.tuples(st.sampled_from([0, 1, 3, 4, 2 ** 32, 2 ** 64 - 1]), st.sampled_from([1, -1, 0, 2 ** 31 - 1, -2 ** 31])),
                   max_size=4).map(lambda t: ref.encode_ram(dict(t)))
    t = ".".join(draw(st.lists(blk, max_size=5)))
    k = draw(st.integers(0, 6))
    if k == 0:
        t = t[:draw(st.integers(0, max(0, len(t) - 1)))]
    elif k == 1:
        t = t + draw(st.sampled_from([".", "=", "A", "\x00", "\u00e9", "AAAA", "AA==", ".wdpkg"]))
    elif k == 2:
        i = draw(st.integers(0, len(t)))
        t = t[:i] + draw(st.sampled_from(["=", ".", "#", " ", "\n", "-", "AAAA"])) + t[i:]
    return t


@st.composite
def damage(draw):
    k = draw(st.sampled_from(["number", "number", "number", "other", "delete", "data", "copy", "rename", "cut"]))
    v = None
    if k == "number":
        v = draw(st.sampled_from(NUMBERS))
    elif k == "other":
        v = draw(st.sampled_from(OTHERS))
    elif k == "data":
        v = draw(text_data())
    return [k, draw(st.integers(0, 10 ** 6)), draw(st.integers(0, 10 ** 6)), v]


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["disc", "wisard", "wisard", "clus", "clus", "ram", "bits", "set"]))
    if kind == "ram":
        return {"kind": kind, "text": draw(text_data()), "file": draw(st.booleans())}
    if kind == "bits":
        return {"kind": kind, "text": base64.b64encode(draw(st.binary(max_size=8))).decode() + draw(st.sampled_from(["", "", "=", "A"]))}
    if kind == "set":
        parts = [draw(st.sampled_from(["", "eA==", "eA", "=", "A"])) + draw(st.sampled_from(["#", "#", "#", "", "##"])) +
                 base64.b64encode(draw(st.binary(max_size=4))).decode() for _ in range(draw(st.integers(0, 4)))]
        return {"kind": kind, "text": ".".join(parts)}
    c = draw(models.clus_cfg(wide=False, max_entry=8)) if kind == "clus" else draw(models.wisard_cfg(wide=False, max_entry=10))
    pool = draw(gen.entries(c["base"], c["entry"], 1, 3))
    return {"kind": kind, "cfg": c, "pool": pool, "damage": draw(st.lists(damage(), min_size=1, max_size=3)),
            "as": draw(st.sampled_from(["same", "same", "same", "same", "Wisard", "ClusWisard", "Discriminator"])),
            "config": draw(st.integers(0, 5)) == 0, "file": draw(st.integers(0, 4)) == 0}


def spots(x, at=()):
    if isinstance(x, dict):
        for k in sorted(x):
            yield at + (k,)
            yield from spots(x[k], at + (k,))
    elif isinstance(x, list):
        for k in range(len(x)):
            yield at + (k,)
            yield from spots(x[k], at + (k,))


def spoil(j, d):
    """One damage; returns the document, or text if it is no longer a document."""
    k, a, b, v = d
    if isinstance(j, str):
        return j
    if k == "cut":
        t = json.dumps(j)
        return t[:a % len(t)]
    ps = list(spots(j))
    if k == "number":
        def num(p):
            x = j
            for q in p:
                x = x[q]
            return isinstance(x, (int, float))
        ps = [p for p in ps if num(p)] or ps
    if k == "data":
        ps = [p for p in ps if p[-1] == "data"] or ps
    if not ps:
        return j
    p = ps[a % len(ps)]
    x = j
    for q in p[:-1]:
        x = x[q]
    if k == "delete":
        del x[p[-1]]
    elif k == "copy":
        q = ps[b % len(ps)]
        y = j
        for z in q:
            y = y[z]
        x[p[-1]] = json.loads(json.dumps(y))
    elif k == "rename":
        if isinstance(x, dict):
            y = x.pop(p[-1])
            x[["", "a", "a::0", "\x00", "data", "x" * 300][b % 6]] = y
        else:
            x.append(x[p[-1]])
    else:
        x[p[-1]] = v
    return j


def attempt(f, *a):
    try:
        return f(*a)
    except ORDINARY:
        return None
    except MemoryError:
        return None


class PROP:
    ID = "C26"
    BACKENDS = ["py", "src"]
    VARIANT = "asan"
    EXTRA_BUILDS = ("fuzz", "fuzzhdr")
    TECHNIQUE = "coverage-guided fuzzing (libFuzzer) and property-based testing (Hypothesis), both under AddressSanitizer"
    QUICK, THOROUGH = 1200, 20000
    QUICK_S = 30
    CPU_FACTOR = 2
    RULE = ("(1) libFuzzer with AddressSanitizer and library assertions on the generated and the committed header: any bytes as "
            "a saved model, RAM data (text and file), packed input, data set file, base64 text or the RAM file of a model, "
            "seeded with valid saves and a dictionary, every operation of what loads is called, 20 s time limit per input; "
            "(2) Hypothesis with the Python module and src/ under AddressSanitizer: saves of trained models whose "
            "documents are damaged in one to three places (extreme numbers, other types, missing, copied and renamed parts, "
            "damaged RAM data, cut text), loaded by the same or another class and used. The result must be an ordinary error "
            "or a usable object. Non-trivial: an input the constructor accepts (Hypothesis), an input that covers new code "
            "(libFuzzer)")
    ASSUMPTIONS = ["operations whose cost a number in the input decides (mental image of more than 10^6 positions, bleaching up to "
                   "counts above 10^6) are left out for such inputs", "inputs of the fuzzer up to 4096 bytes"]
    FUZZ_ENV = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:symbolize=0:detect_odr_violation=0"}

    @staticmethod
    def strategy(tier, backend):
        return case()

    # ---- libFuzzer ------------------------------------------------------------------------------

    @staticmethod
    def fuzz_cmd(exe, extra):
        return [exe, "-timeout=40", "-rss_limit_mb=3500", "-malloc_limit_mb=3000", "-max_len=4096", "-print_final_stats=1"] + extra

    @staticmethod
    def extra(chk):
        seconds = 28 if chk.tier == "quick" else 420
        jobs = []
        for i in range(4):
            name = ("fuzz", "fuzzhdr")[i % 2]
            d = os.path.join(chk.dir, "fuzz%d" % i)
            corpus, scratch = os.path.join(d, "corpus"), os.path.join(d, "scratch")
            os.makedirs(corpus)
            os.makedirs(scratch)
            for n, b in enumerate(seeds()):
                with open(os.path.join(corpus, "seed%03d" % n), "wb") as fh:
                    fh.write(b)
            with open(os.path.join(d, "dict"), "w") as fh:
                for n, wd in enumerate(WORDS):
                    fh.write('w%d="%s"\n' % (n, wd.replace("\\", "\\\\").replace('"', '\\"')))
            env = dict(os.environ, VT_FUZZ_DIR=scratch, TMPDIR=scratch, **PROP.FUZZ_ENV)
            log = open(os.path.join(d, "log"), "w")
            p = subprocess.Popen(PROP.fuzz_cmd(chk.paths[(name, "plain")],
                                               ["-seed=%d" % (chk.seed * 16 + i + 1), "-max_total_time=%d" % seconds,
                                                "-dict=" + os.path.join(d, "dict"), "-artifact_prefix=" + d + "/art-", corpus]),
                                 stdout=log, stderr=log, env=env, cwd=d, start_new_session=True)
            jobs.append((name, d, p))

        def collect(ev, per_backend, errors):
            found = []
            for name, d, p in jobs:
                try:
                    rc = p.wait(seconds + 150)
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, 9)
                    rc = "no end"
                with open(os.path.join(d, "log"), errors="replace") as fh:
                    text = fh.read()
                stats = {l.split(":")[2].strip(): int(l.split(":")[3]) for l in text.splitlines() if l.startswith("stat::")}
                n = stats.get("number_of_executed_units", 0)
                ev["evaluations"] += n
                per_backend[name] = per_backend.get(name, 0) + n
                new = stats.get("new_units_added", 0)
                ev["events"]["libFuzzer inputs that covered new code"] = \
                    ev["events"].get("libFuzzer inputs that covered new code", 0) + new
                for f in sorted(os.listdir(os.path.join(d, "corpus"))):
                    if not f.startswith("seed"):
                        ev["hashes"].add("fuzz-" + f)
                arts = [f for f in sorted(os.listdir(d)) if f.startswith("art-") and "slow-unit" not in f]
                for f in arts:
                    with open(os.path.join(d, f), "rb") as fh:
                        raw = fh.read()
                    what = [l for l in text.splitlines() if "ERROR" in l or "SUMMARY" in l or "Assertion" in l]
                    case = {"kind": "fuzz", "exe": name, "input": base64.b64encode(PROP.minimize(chk, name, d, f, raw)).decode()}
                    orig = {"kind": "fuzz", "exe": name, "input": base64.b64encode(raw).decode()}
                    found.append(("py", [[case], [orig]], "libFuzzer (%s): %s" % (name, "; ".join(what)[:400])))
                if not arts and rc != 0:
                    errors.append("libFuzzer (%s) exit %s: %s" % (name, rc, text[-600:]))
                shutil.rmtree(d, ignore_errors=True)
            return found
        return collect

    @staticmethod
    def minimize(chk, name, d, f, raw):
        if f.startswith("art-timeout") or f.startswith("art-oom"):
            return raw
        out = os.path.join(d, "min")
        env = dict(os.environ, VT_FUZZ_DIR=os.path.join(d, "scratch"), TMPDIR=os.path.join(d, "scratch"), **PROP.FUZZ_ENV)
        try:
            subprocess.run(PROP.fuzz_cmd(chk.paths[(name, "plain")], ["-minimize_crash=1", "-max_total_time=15",
                                                                      "-exact_artifact_path=" + out, os.path.join(d, f)]),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=d, timeout=60)
            with open(out, "rb") as fh:
                return fh.read()
        except (OSError, subprocess.TimeoutExpired):
            return raw

    @staticmethod
    def fuzz_input(case, s):
        """Replay of one input of the fuzz target."""
        root = s.tmp()
        p = os.path.join(root, "input")
        with open(p, "wb") as fh:
            fh.write(base64.b64decode(case["input"]))
        env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "ASAN_OPTIONS")}
        env.update(PROP.FUZZ_ENV, VT_FUZZ_DIR=root)
        r = subprocess.run(PROP.fuzz_cmd(s.w.cfg["extra"][case["exe"]], [p]), capture_output=True, text=True,
                           errors="replace", env=env, cwd=root)
        lines = [l for l in r.stderr.splitlines() if "ERROR" in l or "SUMMARY" in l or "Assertion" in l]
        check(r.returncode == 0, "the fuzz target ends with %d: %s", r.returncode, "; ".join(lines)[:600] or r.stderr[-400:])

    # ---- Hypothesis -----------------------------------------------------------------------------

    @staticmethod
    def run(api, case, s):
        kind = case["kind"]
        s.event(kind)
        if kind == "fuzz":
            return PROP.fuzz_input(case, s)
        if kind == "ram":
            t = case["text"]
            if case["file"]:
                p = os.path.join(s.tmp(), "r.wdpkg")
                with open(p, "w") as fh:
                    fh.write(t)
                t = p
            h = attempt(api.RAMDataHandle, t)
            if h is not None:
                s.nontrivial = True
                for r in range(-1, 7):
                    attempt(h.get, r)
                    attempt(h.get, r, 3)
                    attempt(h.data, r)
                    attempt(h.set, r, 2 ** 64 - 1, -1)
                attempt(h.data)
                attempt(h.compare, h)
            return
        if kind == "bits":
            b = attempt(api.BinInput, case["text"])
            if b is not None:
                s.nontrivial = True
                PROP.packed(api, b)
            return
        if kind == "set":
            p = os.path.join(s.tmp(), "r.wpkds")
            with open(p, "w") as fh:
                fh.write(case["text"])
            d = attempt(api.DataSet, p)
            if d is not None:
                s.nontrivial = d.size() > 0
                for i in range(d.size()):
                    b = attempt(d.get, i)
                    attempt(d.getLabel, i)
                    if b is not None and i < 5:
                        PROP.packed(api, b)
                attempt(d.save, os.path.join(s.tmp(), "again"))
                w = api.Wisard(2)
                attempt(w.train, d)
                attempt(w.classify, d)
            return
        PROP.document(api, case, s)

    @staticmethod
    def packed(api, b):
        n = b.size()
        for i in (0, 1, n // 2, n - 1, n, n + 1, n + 7):
            attempt(b.get, i)
            attempt(b.set, i, 1)
        attempt(api.BinInput, b.data())
        if 0 < n < 200:
            d = attempt(api.Discriminator, 2, n)
            if d is not None:
                attempt(d.train, b)
                attempt(d.classify, b)

    @staticmethod
    def document(api, case, s):
        kind, c, pool = case["kind"], case["cfg"], case["pool"]
        labels = (c["labels"] * len(pool))[:len(pool)]
        if kind == "clus":
            m = models.make_clus(api, c)
            m.train(pool, labels)
            m.trainUnsupervised(pool)
        elif kind == "wisard":
            m = models.make_wisard(api, c)
            m.train(pool, labels)
        else:
            m = api.Discriminator(c["addr"], c["entry"])
            attempt(m.train, pool)
        pre = os.path.join(s.tmp(), "m")
        text = m.jsonConfig() if case["config"] else m.json(True, pre) if case["file"] else m.json()
        j = json.loads(text)
        for d in case["damage"]:
            j = spoil(j, d)
        text = j if isinstance(j, str) else json.dumps(j)
        name = {"disc": "Discriminator", "wisard": "Wisard", "clus": "ClusWisard"}[kind]
        if case["as"] != "same":
            name = case["as"]
        if not case["file"] and len(text) % 7 == 0:
            text = text.replace(json.dumps("data") + ": \"", "\"data\": \"" + os.path.join(s.tmp(), "no") + ".wdpkg", 1)
        m = attempt(getattr(api, name), text)
        if m is None:
            return
        s.nontrivial = True
        saved = attempt(m.json)
        if saved is None:
            return
        j = json.loads(saved)
        sizes, top = [], [0]

        def look(x):
            if isinstance(x, dict):
                if isinstance(x.get("entrySize"), int):
                    sizes.append(x["entrySize"])
                if isinstance(x.get("data"), str):
                    h = attempt(api.RAMDataHandle, x["data"])
                    for r in range(20):
                        d = attempt(h.get, r) if h is not None else None
                        if d:
                            top[0] = max([top[0]] + list(d.values()))
                for v in x.values():
                    look(v)
            elif isinstance(x, list):
                for v in x:
                    look(v)

        look(j)
        cheap = top[0] <= 1000000
        base = j.get("base") if isinstance(j.get("base"), int) else 2
        es = [list(e) for e in pool[:2]]
        for n in sorted(set(sizes))[:4] + [4]:
            if 0 <= n <= 20000:
                es += [[0] * n, [max(0, base - 1)] * n, [-1] * n, [2 ** 31 - 1] * n]
        known = list((j.get("classes") or j.get("clusters") or {}))[:3] if isinstance(
            j.get("classes") or j.get("clusters") or {}, dict) else []
        for e in es:
            if name == "Discriminator":
                attempt(m.classify, e)
                attempt(m.train, e)
                attempt(m.classify, e)
                continue
            if cheap:
                attempt(m.classify, [e])
                if name == "ClusWisard":
                    attempt(m.classifyUnsupervised, [e])
            for l in known + ["fresh"]:
                attempt(m.train, [e], [l])
                if name == "Wisard":
                    attempt(m.leaveOneOut, e, l)
            if name == "ClusWisard":
                attempt(m.trainUnsupervised, [e])
                if cheap:
                    attempt(m.train, [e, e], {0: "fresh"})
                    attempt(m.classify, [e, e])
        if max(sizes, default=0) <= 1000000 and name != "Discriminator":
            attempt(m.getMentalImages)
            if name == "ClusWisard":
                for l in known + ["?"]:
                    attempt(m.getMentalImage, l)
        attempt(m.getsizeof)
        attempt(m.jsonConfig)
        attempt(m.json, True, os.path.join(s.tmp(), "q"))
        t = attempt(m.json)
        if t is not None:
            attempt(getattr(api, name), t)
