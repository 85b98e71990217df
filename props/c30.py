"""C30 Model size is determined by the distinct patterns learned."""
import json
import random

from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import check, same


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["disc", "wisard", "wisard", "clus"]))
    if kind == "disc":
        c = draw(gen.config(max_entry=16))
        c["labels"] = ["x"]
    elif kind == "wisard":
        c = draw(models.wisard_cfg(max_entry=16, nlab=(1, 4), nasty=draw(st.integers(0, 2)) == 0))
    else:
        c = draw(models.clus_cfg(max_entry=12, nlab=(1, 3), nasty=draw(st.integers(0, 2)) == 0))
    pool = draw(gen.entries(c["base"], c["entry"], 2, 6))
    ops = []
    kinds = {"disc": ["train"], "wisard": ["train", "train", "train", "forget"], "clus": ["train", "train", "unsup"]}[kind]
    for _ in range(draw(st.integers(1, 7))):
        ops.append([draw(st.sampled_from(kinds + ["read", "reload"])),
                    draw(gen.pairs(len(pool), len(c["labels"]), 1, 4)), draw(st.sampled_from([1, 1, 2, 200]))])
    if kind != "clus" and gen.rarely(draw, 40) and c["base"] ** c["addr"] > 2000:
        ops.insert(draw(st.integers(0, len(ops))), ["flood", draw(gen.pairs(len(pool), len(c["labels"]), 1, 1)),
                                                    draw(st.sampled_from([1100, 2100, 4200, 4200, 8300]))])
    return {"kind": kind, "cfg": c, "pool": pool, "ops": ops, "clock": draw(gen.clock),
            "span": draw(st.one_of(st.integers(3, 40), st.sampled_from([63, 64, 65, 100, 127, 128, 255, 256, 257, 1000, 1025, 5000]))), "single": draw(models.single())}


def parts(kind, text):
    """(stored patterns, {discriminator: its addressing})"""
    j = json.loads(text)
    if kind == "disc":
        ds = {(): ref.disc_content(j, True)}
    elif kind == "wisard":
        ds = {(l,): d for l, d in ref.wisard_content(text, True)[1].items()}
    else:
        _, cl, un = ref.cluswisard_content(text, True)
        ds = {(l, i): d for l, k in cl.items() for i, d in enumerate(k["discriminators"])}
        if un:
            ds.update({(None, i): d for i, d in enumerate(un["discriminators"])})
    return sum(len(r) for d in ds.values() for r in d["rams"]), {k: [len(m) for m in d["mapping"]] for k, d in ds.items()}


def once(api):
    """The documented unit: what one more pattern in one RAM adds, measured on the smallest model."""
    d = api.Discriminator(2, 2)
    a = d.getsizeof()
    d.train([1, 0])
    b = d.getsizeof()
    d.train([0, 0])
    same(d.getsizeof() - b, b - a, "sizes added by the first and by the second pattern")
    return b - a


class PROP:
    ID = "C30"
    BACKENDS = ["py", "py", "py", "py", "src", "src", "hdr", "hdr"]
    QUICK, THOROUGH = 2500, 45000
    QUICK_S = 30
    RULE = ("histories of Discriminators, Wisards and ClusWisards; each step must change getsizeof by the unit measured on "
            "the smallest model times the patterns newly stored (read from the saved data, zero counts included), plus, for "
            "new classes and discriminators, the size of an empty one of the same addressing; reads, repetitions, forgetting "
            "change nothing; reloads report the same size; a model is the sum of its discriminators, clusters, labels and a "
            "constant. Non-trivial: at least one step with new patterns and one with none, and two discriminators or RAMs")

    @staticmethod
    def strategy(tier, backend):
        return case()

    @staticmethod
    def run(api, case, s):
        api = models.calls(api, case, s)
        c, pool, labels, kind = case["cfg"], case["pool"], case["cfg"]["labels"], case["kind"]
        s.clock(case["clock"])
        s.event(kind)
        unit = once(api)
        check(unit > 0, "a stored pattern adds %d", unit)
        if kind == "disc":
            m = api.Discriminator(c["addr"], c["entry"], **gen.disc_kwargs(c))
        else:
            m = (models.make_wisard if kind == "wisard" else models.make_clus)(api, c)
        n, ds = parts(kind, m.json())
        size = m.getsizeof()
        grew = flat = False
        for k, items, times in case["ops"]:
            if len(items) > 20 and k != "flood":
                times = min(times, 2)
                items = items[:1100 if kind == "clus" else None]
            es = [pool[e] for e, _ in items] * times
            ls = [labels[l] for _, l in items] * times
            if k == "flood":
                r = random.Random(items[0][0])
                top = c["base"] ** c["entry"] - 1
                es = [gen.entry_from_int(r.randint(0, top), c["base"], c["entry"]) for _ in range(times)]
                ls = ls[:1] * times
                k = "train"
                s.event("thousands of patterns")
            if k == "read":
                m.classify(es[0] if kind == "disc" else es)
                m.json()
                m.jsonConfig()
            elif k == "reload":
                m = models.again(m, m.json())
            elif k == "forget":
                m.leaveMoreOut(es, ls)
            elif kind == "disc":
                m.train(es)
            elif k == "unsup":
                m.trainUnsupervised(es)
            else:
                m.train(es, ls)
            size2 = m.getsizeof()
            n2, ds2 = parts(kind, m.json())
            same(m.getsizeof(), size2, "size after saving")
            if len(ds2) == len(ds):
                same(size2 - size, unit * (n2 - n), "bytes added by %s, which stored %d new patterns" % (k, n2 - n))
            else:
                check(size2 - size >= unit * (n2 - n), "%d new patterns and %d discriminators add %d bytes", n2 - n,
                      len(ds2) - len(ds), size2 - size)
            if k in ("read", "reload", "forget"):
                same(size2, size, "size after %s" % k)
            # the same again: nothing new is learned
            if k == "train" and kind != "clus":
                m.train(es) if kind == "disc" else m.train(es, ls)
                same(m.getsizeof(), size2, "size after learning the same again")
                flat = True
            grew |= n2 > n
            flat |= n2 == n
            n, ds, size = n2, ds2, size2
        if kind == "wisard" and c.get("indexes"):
            # configured indexes are a part as well, each of the same size
            a, b, d = (api.Wisard(2, indexes=list(range(q))).getsizeof() for q in (2, 4, case["span"]))
            check(b > a, "two more indexes add %d bytes", b - a)
            same((d - a) * 2, (b - a) * (case["span"] - 2), "size with %d indexes and with two, twice" % case["span"])
            s.event("indexes")
        text = m.json()
        twin = models.again(m, text)
        same(twin.getsizeof(), m.getsizeof(), "size of a reload")
        j = json.loads(text)
        cls = getattr(api, {"disc": "Discriminator", "wisard": "Wisard", "clus": "ClusWisard"}[kind])
        base = {"ignoreZero": c["ignoreZero"], "base": c["base"]}

        def disc(d):
            return api.Discriminator(json.dumps(dict(d, **base))).getsizeof()

        if kind == "wisard":
            j["classes"] = None
            empty = cls(json.dumps(j)).getsizeof()
            d = json.loads(text)["classes"] or {}
            same(size, empty + sum(len(l.encode()) + disc(x) for l, x in d.items()), "size and the sum of the parts")
        elif kind == "clus":
            empty = json.loads(text)
            empty.pop("clusters", None)
            empty.pop("unsupervisedCluster", None)
            e0 = cls(json.dumps(empty)).getsizeof()
            total = e0
            for l, k in (j.get("clusters") or {}).items():
                # a cluster of the same model on its own, without its label
                total += alone(cls, empty, {l: k}) - e0
            if j.get("unsupervisedCluster"):
                total += cls(json.dumps(dict(empty, unsupervisedCluster=j["unsupervisedCluster"]))).getsizeof() - e0
                s.event("with unsupervised cluster")
            same(size, total, "size and the sum of the clusters")
            # the discriminators of a cluster add up
            for l, k in (j.get("clusters") or {}).items():
                q = k["discriminators"]
                one = [alone(cls, empty, {l: dict(k, discriminators=[d])}) for d in q]
                none = one[0] - disc(q[0])
                pair = alone(cls, empty, {l: k})
                own = [x - none for x in one]
                same(own, [disc(d) for d in q], "sizes of the discriminators of %r" % l)
                if len(q) > 1:
                    # each further discriminator costs the same on top of its own size
                    gap = pair - none - sum(own)
                    check(gap % (len(q) - 1) == 0 and gap >= 0, "%d discriminators of %r: %d over their sizes", len(q), l, gap)
                    s.event("several discriminators")
        s.nontrivial = grew and flat and (len(ds) > 1 or any(len(v) > 1 for v in ds.values()))


def alone(cls, empty, clusters):
    return cls(json.dumps(dict(empty, clusters=clusters))).getsizeof()
