"""C08 Saved ClusWisards reload as equal models."""
import json

from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import check, same


@st.composite
def case(draw):
    single = draw(st.integers(0, 1)) == 0
    c = draw(models.clus_cfg(nasty=draw(st.integers(0, 2)) == 0, degrees=True, single=single, max_entry=10))
    pool = draw(gen.entries(c["base"], c["entry"], 2, 7))
    kinds = ("train", "train", "unsup", "semi")
    before = draw(op_list(len(pool), len(c["labels"]), kinds, 0, 6, 600))
    after = draw(op_list(len(pool), len(c["labels"]), kinds, 0, 5, 25))
    return {"cfg": c, "pool": pool, "before": before, "after": after, "hops": draw(st.integers(1, 2)) if draw(st.integers(0, 79)) != 41 else draw(st.sampled_from([9, 20, 40, 120])),
            "inflate": draw(models.inflation()) if gen.rarely(draw, 12) else None,
            "huge": draw(models.inflation(models.HUGE_FACTORS)) if gen.rarely(draw, 8) else None,
            "clock": draw(gen.clock), "single": draw(models.single()), "clock2": draw(gen.clock)}


@st.composite
def op_list(draw, n, k, kinds, lo, hi, cap=1000):
    ops = []
    for _ in range(draw(st.integers(lo, hi))):
        kind = draw(st.sampled_from(kinds))
        es = draw(gen.picked(n, 1, 5))
        es = es[:cap]
        if kind == "train":
            ops.append(["train", [[e, draw(st.integers(0, k - 1)) if len(es) < 20 else 0] for e in es],
                        draw(st.sampled_from([1, 1, 1, 2, 5])) if len(es) < 20 else 1])
        elif kind == "unsup":
            ops.append(["unsup", es])
        else:
            lab = {}
            for _ in range(draw(st.integers(1, min(8, len(es))))):
                lab[draw(st.integers(0, len(es) - 1))] = draw(st.integers(0, k - 1))
            ops.append(["semi", es, sorted([a, b] for a, b in lab.items())])
    return ops


def options(text):
    return ref.cluswisard_content(text)[0]


class PROP:
    ID = "C08"
    BACKENDS = ["py", "py", "py", "py", "py", "src", "hdr", "hdr"]
    QUICK, THOROUGH = 2800, 50000
    QUICK_S = 35
    RULE = ("supervised, semi-supervised and unsupervised histories of ClusWisards (up to 14 discriminators per cluster) "
            "saved and reloaded once or twice; options, clusters, discriminators in order, counts, unsupervised cluster, "
            "supervised and unsupervised answers with degrees and mental images are compared, then both run on with the "
            "same operations. New discriminators have random addressing: with one RAM per discriminator the comparison "
            "goes on (patterns compared position by position), otherwise the reload is judged alone by the score rule and the addressing options from the first new one. Non-trivial: "
            "some cluster had at least two discriminators when it was saved")

    @staticmethod
    def strategy(tier, backend):
        return case()

    @staticmethod
    def run(api, case, s):
        api = models.calls(api, case, s)
        c, pool, labels = case["cfg"], case["pool"], case["cfg"]["labels"]
        s.clock(case["clock"])
        a = models.make_clus(api, c)

        def single_steps(op):
            """an operation as a list of calls that learn one entry each (semi-supervised stays one call)"""
            if op[0] == "train":
                return [("train", [pool[e]], [labels[l]]) for e, l in op[1] for _ in range(op[2])]
            if op[0] == "unsup":
                return [("unsup", [pool[e]], None) for e in op[1]]
            return [("semi", [pool[e] for e in op[1]], {i: labels[l] for i, l in op[2]})]

        def apply(m, call):
            if call[0] == "unsup":
                m.trainUnsupervised(call[1])
            else:
                m.train(call[1], call[2])

        for op in case["before"]:
            for call in single_steps(op):
                apply(a, call)
        text = a.json()
        if case["inflate"]:
            steps = sum(len(single_steps(op)) * (1 if op[0] != "semi" else 1 + len(op[1])) for op in case["after"])
            text = models.inflate("clus", text, case["inflate"], 8 * (7 * len(pool) + 2) * (1 + steps))
            a = api.ClusWisard(text)
            s.event("inflated")
        r = a
        for _ in range(case["hops"]):
            s.clock(case["clock2"])
            r = api.ClusWisard(r.json())
        asked = models.neighbours(pool, c["base"], 2)
        if len(pool) > 20:
            asked = asked[::1 + len(asked) // 60]
        whole = ref.cluswisard_content(text)
        same(ref.cluswisard_content(r.json()), whole, "reloaded content")
        models.saved_options(whole[0], c, True)
        same(sorted(json.loads(r.json())), sorted(json.loads(text)), "fields of the saved reload")
        sizes = [len(k["discriminators"]) for k in whole[1].values()] + \
            ([len(whole[2]["discriminators"])] if whole[2] else [])
        s.nontrivial = any(z > 1 for z in sizes)
        if any(z > 10 for z in sizes):
            s.event("more than 10 discriminators")
        if whole[2]:
            s.event("with unsupervised cluster")
        if not sizes:
            s.event("untrained")

        def answers(m):
            return (m.classify(asked), m.classifyUnsupervised(asked))

        def compare(what):
            same(r.classify(asked), a.classify(asked), what + ": answers")
            same(r.classifyUnsupervised(asked), a.classifyUnsupervised(asked), what + ": unsupervised answers")
            same(r.getMentalImages(), a.getMentalImages(), what + ": mental images")

        compare("just loaded")
        if case["huge"]:
            models.large_counts(api.ClusWisard, "clus", text, case["huge"], c["base"])
            s.event("counts up to 2^31")
        one_ram = c["entry"] == c["addr"]
        apart = False
        turn, step = 0, 1 + sum(len(single_steps(op)) for op in case["after"]) // 40
        for op in case["after"]:
            for call in single_steps(op):
                if call[0] == "semi" and not one_ram:
                    continue
                if call[0] == "semi" and not any(0 <= k < len(call[1]) for k in call[2]):
                    continue
                if apart:
                    PROP.alone(c, r, call, s)
                    continue
                apply(a, call)
                prev = ref.cluswisard_content(r.json())
                apply(r, call)
                ca, cr = ref.cluswisard_content(a.json()), ref.cluswisard_content(r.json())
                if one_ram:
                    same(norm(cr, c), norm(ca, c), "content after %s on both" % call[0])
                else:
                    same(shape(cr), shape(ca), "discriminators and counts after %s on both" % call[0])
                    if shape(ca) != shape(whole, True) and news(ca, whole):
                        # a new discriminator: only the old ones can be compared
                        same(old(cr, whole), old(ca, whole), "old discriminators after %s on both" % call[0])
                        # ... from here on the reload is judged alone, by the rule for learning
                        PROP.rule(c, prev, cr, call)
                        apart = True
                        s.event("judged alone after a new discriminator")
                        continue
                    same(cr, ca, "content after %s on both" % call[0])
                s.event("learned after reload")
                turn += 1
                if turn % step == 0:
                    compare("after %s on both" % call[0])


    @staticmethod
    def alone(c, r, call, s):
        if call[0] == "semi":
            return
        prev = ref.cluswisard_content(r.json())
        if call[0] == "unsup":
            r.trainUnsupervised(call[1])
        else:
            r.train(call[1], call[2])
        PROP.rule(c, prev, ref.cluswisard_content(r.json()), call)
        s.event("learned alone")

    @staticmethod
    def rule(c, prev, now, call):
        """Learning after a reload, with new discriminators: the options decide as before the reload."""
        if call[0] == "semi":
            return
        key = ("u", "") if call[0] == "unsup" else ("c", call[2][0])
        p, n = allc(prev), allc(now)
        for k in n:
            if k != key:
                same(n[k], p.get(k), "cluster %r after learning %r" % (k, key))
        for i, d in enumerate(n[key]["discriminators"]):
            models.random_ok(d["mapping"], c["entry"], c["addr"], c["complete"], "discriminator %d of %r" % (i, key))
        check(len(n[key]["discriminators"]) <= c["limit"], "limit %d exceeded after a reload", c["limit"])
        ok, _, _ = models.grow(c, p.get(key), call[1], n[key])
        check(ok, "learning %r after a reload: from %r to %r", call[1], p.get(key), n[key])


def allc(content):
    d = {("c", l): k for l, k in content[1].items()}
    if content[2]:
        d[("u", "")] = content[2]
    return d


def norm(content, c):
    """Content with the addressing of one-RAM discriminators brought into input order."""
    out = {}
    for k, cl in allc(content).items():
        ds = []
        for d in cl["discriminators"]:
            m = d["mapping"][0]
            ram = {}
            for p, v in ref.ram_patterns(d["rams"][0], c["base"], len(m)).items():
                e = [None] * len(m)
                for pos, val in zip(m, p):
                    e[pos] = val
                ram[tuple(e)] = v
            ds.append((d["count"], ram))
        out[k] = (cl["entrySize"], ds)
    return out


def shape(content, _=False):
    return {k: [d["count"] for d in cl["discriminators"]] for k, cl in allc(content).items()}


def news(content, whole):
    a, b = allc(content), allc(whole)
    return any(k not in b or len(v["discriminators"]) > len(b[k]["discriminators"]) for k, v in a.items())


def old(content, whole):
    a, b = allc(content), allc(whole)
    return {k: a[k]["discriminators"][:len(v["discriminators"])] for k, v in b.items()}
