"""C24 Invalid configurations and mismatched arguments are rejected."""
import json

from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import check, refused, same

BAD_ADDR = [1, 0, -1, -2, -2 ** 31, 2 ** 31 - 1]
BAD_BASE = [1, 0, -1, -2, -3, -2 ** 31]
BAD_POS = [-1, -2, -2 ** 31, 2 ** 31 - 1]


@st.composite
def shape(draw):
    """base, address size at or near the 2^64 limit or small, entry size"""
    base = draw(st.sampled_from(gen.BASES + [4294967295 // 2 + 1 - 1, 46341, 2642245, 1625, 255, 257, 138, 139]))
    m = gen.max_addr(base)
    addr = draw(st.one_of(st.integers(2, min(m, 5)), st.integers(2, min(m, 5)), st.integers(max(2, m - 1), max(2, m))))
    more = draw(st.integers(0, addr + 4))
    if gen.rarely(draw, 40):
        more = draw(st.sampled_from([60, 64, 120, 128, 250, 256, 257, 300, 600]))
    return {"base": base, "addr": addr, "entry": addr + more}


def spoil_indexes(draw, n):
    p = list(draw(gen.permutation(n)))
    k = draw(st.integers(0, 4))
    i = draw(st.integers(0, n - 1))
    if k == 0:
        p[i] = p[(i + 1) % n]
    elif k == 1:
        p[i] = draw(st.sampled_from(BAD_POS + [n, n + 1]))
    elif k == 2:
        del p[i]
    elif k == 3:
        p.append(draw(st.integers(0, n)))
    else:
        p = p + p
    return p


def mapping(draw, sh, rams):
    m = gen.max_addr(sh["base"])
    # a single RAM may reach the 2^64 limit whatever the address size of the model
    top = draw(st.sampled_from([min(m, 4), min(m, 4), m]))
    if rams > 40:
        r = gen.rng(draw)
        return [[r.randrange(sh["entry"]) for _ in range(r.randint(min(2, top), min(8, top)))] for _ in range(rams)]
    return [draw(st.lists(st.integers(0, sh["entry"] - 1), min_size=min(2, top), max_size=top)) for _ in range(rams)]


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["disc", "disc", "wisard", "wisard", "clus", "clus", "canvas", "mismatch"]))
    if kind == "canvas":
        dim, n = draw(st.integers(1, 6)), draw(st.integers(1, 30))
        kw = {"bitsByKernel": draw(st.integers(1, 5)), "activationDegree": draw(st.sampled_from([0.0, 1.0, 0.5, 0.07])),
              "useDirection": draw(st.booleans())}
        kw = {k: v for k, v in kw.items() if draw(st.booleans())}
        bad = draw(st.sampled_from([None, "dim", "n", "bits", "degree", "points", "points"]))
        low = draw(st.sampled_from([0, -1, -2, -2 ** 31]))
        if bad == "dim":
            dim = low
        elif bad == "n":
            n = low
        elif bad == "bits":
            kw["bitsByKernel"] = low
        elif bad == "degree":
            kw["activationDegree"] = draw(st.sampled_from([-0.01, 1.01, -1.0, 2.0, 1e30, -1e30, "nan", "inf", "-inf"]))
        pts = [[float(draw(st.integers(-3, 3))) for _ in range(max(dim, 1))] for _ in range(draw(st.integers(1, 4)))]
        if bad == "points":
            i = draw(st.integers(0, len(pts) - 1))
            pts[i] = draw(st.sampled_from([[], pts[i][1:], pts[i] + [0.0], pts[i] * 3]))
        return {"kind": kind, "dim": dim, "n": n, "kw": kw, "bad": bad, "points": pts, "clock": draw(gen.clock)}
    if kind == "mismatch":
        a, b = draw(st.integers(0, 6)), draw(st.integers(0, 6))
        return {"kind": kind, "n": a, "labels": b, "clus": draw(st.booleans()),
                "call": draw(st.sampled_from(["train", "train", "forget", "dict"])), "clock": draw(gen.clock)}
    sh = draw(shape())
    c = dict(sh)
    kw = {}
    if c["base"] != 2 or draw(st.booleans()):
        kw["base"] = c["base"]
    mode = draw(st.sampled_from(["random", "incomplete", "indexes", "mapping"] if kind != "clus"
                                else ["random", "incomplete"]))
    bads = ["addr", "over", "entry", "base", "power"]
    n = c["entry"]
    if mode == "incomplete":
        kw["completeAddressing"] = False
    elif mode == "indexes":
        kw["indexes"] = list(draw(gen.permutation(n)))
        bads += ["indexes"] * 3
    elif mode == "mapping":
        bads = ["base", "power", "position", "position"]
        rams = max(1, -(-n // c["addr"])) + draw(st.integers(0, 1))
        kw["mapping"] = mapping(draw, sh, rams)
    rams = n // c["addr"] + (1 if mode == "random" and n % c["addr"] else 0)
    if kind != "disc":
        low = n // c["addr"] if mode in ("indexes", "mapping") else rams
        if draw(st.integers(0, 2)) == 0:
            kw["confidence"] = draw(st.integers(1, low))
            if draw(st.booleans()):
                kw["confidence"] = low
        bads += ["confidence"] * 2
    if draw(st.integers(0, 3)) == 0:
        kw["ignoreZero"] = True
    c.update({"minScore": draw(st.sampled_from([0.0, 1.0, 0.5, 0.1])), "threshold": draw(st.sampled_from([1, 2, 10, 2 ** 31 - 1])),
              "limit": draw(st.sampled_from([1, 2, 5, 2 ** 31 - 1]))})
    if kind == "clus":
        bads += ["minScore", "threshold", "limit"]
    bad = draw(st.sampled_from([None] * max(4, len(bads) // 2) + bads))
    if bad == "addr":
        c["addr"] = draw(st.sampled_from([1, 1, 0, 0, -1, -2, -2 ** 31]))
    elif bad == "over":
        c["addr"] = draw(st.sampled_from([n + 1, n + 1, n * 2, 2 ** 31 - 1]))
    elif bad == "entry":
        c["entry"] = draw(st.integers(0, 1))
        if mode == "indexes":
            kw["indexes"] = [0] * c["entry"]
    elif bad == "base":
        kw["base"] = draw(st.sampled_from(BAD_BASE))
    elif bad == "power":
        m = gen.max_addr(c["base"])
        if mode == "mapping":
            kw["mapping"][draw(st.integers(0, len(kw["mapping"]) - 1))] = [i % n for i in range(m + 1)]
        else:
            c["addr"] = m + draw(st.sampled_from([1, 1, 2, m]))
            c["entry"] = c["addr"] + draw(st.integers(0, 3))
            if mode == "indexes":
                kw["indexes"] = list(range(c["entry"]))
    elif bad == "indexes":
        kw["indexes"] = spoil_indexes(draw, n)
    elif bad == "position":
        r = kw["mapping"][draw(st.integers(0, len(kw["mapping"]) - 1))]
        r[draw(st.integers(0, len(r) - 1))] = draw(st.sampled_from(BAD_POS + [n, n, n + 1]))
    elif bad == "confidence":
        kw["confidence"] = min(2 ** 31 - 1, max(-(-n // c["addr"]) if mode == "mapping" else rams, len(kw.get("mapping", []))) + draw(
            st.sampled_from([1, 1, 1, 2, 256, 1000, 32767, 32768, 65535, 65536, 65537, 2 ** 24, 2 ** 31 - 200])))
    elif bad == "minScore":
        c["minScore"] = draw(st.sampled_from([-0.01, 1.01, -1.0, 2.0, 1e30, -1e30, "nan"]))
    elif bad == "threshold":
        c["threshold"] = draw(st.sampled_from([0, -1, -2 ** 31]))
    elif bad == "limit":
        c["limit"] = draw(st.sampled_from([0, -1, -2 ** 31]))
    if kind != "disc":
        # options that have nothing to do with it
        for k in ("bleachingActivated", "verbose", "returnConfidence", "returnActivationDegree", "returnClassesDegrees"):
            if gen.rarely(draw, 5):
                kw[k] = k != "bleachingActivated"
    return {"kind": kind, "cfg": c, "kw": kw, "mode": mode, "bad": bad,
            "how": draw(st.sampled_from(["train", "train", "train", "unsup", "loaded"])),
            "clock": draw(gen.clock)}


class PROP:
    ID = "C24"
    BACKENDS = ["py", "py", "py", "py", "src", "src", "hdr", "hdr"]
    QUICK, THOROUGH = 4000, 80000
    QUICK_S = 35
    RULE = ("configurations of Discriminator, Wisard, ClusWisard and KernelCanvas that are valid (on the limits and inside) "
            "or have exactly one value outside a limit (just outside and far), through keyword options, JSON options and "
            "edited saved models; calls whose data and labels differ in number. The invalid one must raise an ordinary "
            "error at construction or first training, the valid one must work. Non-trivial: an invalid case, or a valid one "
            "on a limit (address size at the 2^64 limit or equal to the entry, confidence equal to the number of RAMs)")
    ASSUMPTIONS = ["not generated, because the documentation leaves them open: address sizes next to a mapping, mapped RAMs "
                   "with fewer than two positions, confidence below 1"]

    @staticmethod
    def strategy(tier, backend):
        return case()

    @staticmethod
    def run(api, case, s):
        s.clock(case["clock"])
        kind = case["kind"]
        if kind == "canvas":
            return PROP.canvas(api, case, s)
        if kind == "mismatch":
            return PROP.mismatch(api, case, s)
        c, bad = dict(case["cfg"]), case["bad"]
        if c["minScore"] == "nan":
            c["minScore"] = float("nan")
        s.event("%s %s" % (kind, bad or "valid"))
        what = "%s(addressSize=%d, entries of %d, %r)" % (kind, c["addr"], c["entry"], case["kw"])
        entry = [(i * 7) % max(2, c["base"]) for i in range(c["entry"])] if bad != "base" else [0] * c["entry"]
        kw = dict(case["kw"])

        def use():
            if kind == "disc":
                if case["how"] == "loaded" and "mapping" in kw:
                    d = api.Discriminator(json.dumps({"entrySize": c["entry"], "mapping": kw["mapping"], "count": 0, "data": "",
                                                      "ignoreZero": kw.get("ignoreZero", False), "base": kw.get("base", 2)}))
                else:
                    d = api.Discriminator(c["addr"], c["entry"], **kw)
                d.train(entry)
                r = list(d.classify(entry))
                check(set(r) <= {0, 1}, "responses %r", r)
                return
            if kind == "wisard":
                k = dict(kw)
                if "mapping" in k:
                    k["mapping"] = {"x": k["mapping"]}
                if case["how"] == "loaded":
                    w = api.Wisard(edited(api.Wisard(max(c["addr"], 2)), {"addressSize": c["addr"]}, k))
                else:
                    w = api.Wisard(c["addr"], **k)
                w.train([entry], ["x"])
                same([models.out_class(o) for o in w.classify([entry])], ["x"], "class of the only entry")
                return
            if case["how"] == "loaded":
                if bad == "minScore" and c["minScore"] != c["minScore"]:
                    c["minScore"] = -0.5    # JSON has no such number
                w = api.ClusWisard(edited(api.ClusWisard(2, 0.5, 1, 1),
                                          {"addressSize": c["addr"], "minScore": c["minScore"], "threshold": c["threshold"],
                                           "discriminatorsLimit": c["limit"]}, kw))
            else:
                w = api.ClusWisard(c["addr"], c["minScore"], c["threshold"], c["limit"], **kw)
            if case["how"] == "unsup" and bad != "confidence":
                w.trainUnsupervised([entry])
                same([models.out_class(o) for o in w.classifyUnsupervised([entry])], ["0"], "cluster of the only entry")
            else:
                w.train([entry], ["x"])
                same([models.out_class(o) for o in w.classify([entry])], ["x"], "class of the only entry")

        if bad:
            check(refused(use), "%s with a bad %s works", what, bad)
            s.nontrivial = True
        else:
            use()
            if c["addr"] in (c["entry"], gen.max_addr(c["base"])) or "confidence" in kw:
                s.nontrivial = True

    @staticmethod
    def canvas(api, case, s):
        s.event("canvas %s" % (case["bad"] or "valid"))

        kw = dict(case["kw"])
        if isinstance(kw.get("activationDegree"), str):
            kw["activationDegree"] = float(kw["activationDegree"])

        def use():
            k = api.KernelCanvas(case["dim"], case["n"], **kw)
            out = k.transform(case["points"])
            same(len(out), case["n"] * case["kw"].get("bitsByKernel", 3), "length of the code")

        if case["bad"] is None:
            use()
        else:
            check(refused(use), "KernelCanvas(%d, %d, %r) with bad %s works on %r", case["dim"], case["n"], case["kw"],
                  case["bad"], case["points"])
            s.nontrivial = True

    @staticmethod
    def mismatch(api, case, s):
        n, k = case["n"], case["labels"]
        pool = [[(i >> b) & 1 for b in range(4)] for i in range(max(n, k, 1))]
        w = api.ClusWisard(2, 0.1, 10, 3) if case["clus"] else api.Wisard(2)
        w.train(pool[:2], ["a", "b"][:len(pool[:2])])
        before = w.json()
        labels = ["a", "b", "c", "d", "e", "f"][:k]
        call = case["call"]
        s.event("mismatch " + call)
        view = ref.cluswisard_content if case["clus"] else ref.wisard_content
        if call == "dict":
            if not case["clus"]:
                return
            d = {i + (100 if n % 2 else 0): l for i, l in enumerate(labels)}
            ok = 0 < len(d) <= n and any(i < n for i in d)
            if not d and n == 0:
                return
            if not d:
                # nothing says whether an empty dictionary is an empty list of labels or an empty dictionary
                ok = False
            f, args = w.train, (pool[:n], d)
        elif call == "forget":
            if case["clus"]:
                return
            ok = n == k
            f, args = w.leaveMoreOut, (pool[:n], labels)
        else:
            ok = n == k
            f, args = w.train, (pool[:n], labels)
        if ok:
            f(*args)
        else:
            check(refused(f, *args), "%s with %d entries and %d labels is accepted", call, n, k)
            same(view(w.json()), view(before), "content after a refused call")
            s.nontrivial = True


def edited(model, fixed, kw):
    """The configuration of a fresh model with other values, as it would have been saved."""
    j = json.loads(model.json())
    j.update(fixed)
    j.update(kw)
    return json.dumps(j)
