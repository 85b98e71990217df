"""C12 ClusWisard classifies by the best discriminator over all clusters."""
from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import check, same


@st.composite
def case(draw):
    c = draw(models.clus_cfg(max_entry=16, nlab=(1, 4), nasty=draw(st.integers(0, 4)) == 0))
    pool = draw(gen.entries(c["base"], c["entry"], 2, 8))
    ops = draw(models.history(len(pool), len(c["labels"]), ("train", "train", "train", "unsup", "ask"), 0, 7, gen.times))
    if gen.rarely(draw, 8):
        ops.append(draw(models.inflation()))
    more = draw(gen.entries(c["base"], c["entry"], 1, 4))
    return {"cfg": c, "pool": pool, "ops": ops, "ask": more, "long": draw(gen.long()), "clock": draw(gen.clock), "single": draw(models.single())}


class PROP:
    ID = "C12"
    BACKENDS = ["py", "py", "py", "py", "py", "src", "hdr", "hdr"]
    QUICK, THOROUGH = 2800, 50000
    QUICK_S = 35
    RULE = ("supervised histories over several classes and discriminators; every answer must be the class of a winner of "
            "the reference bleaching decision over all discriminators of all classes (on ties the last candidate in label "
            "order, by composite text or by number). Non-trivial: at least two classes, at least three candidates and an "
            "answer whose winner is unique and not the last candidate")

    @staticmethod
    def strategy(tier, backend):
        return case()

    @staticmethod
    def run(api, case, s):
        api = models.calls(api, case, s)
        c, pool, labels = case["cfg"], case["pool"], case["cfg"]["labels"]
        s.clock(case["clock"])
        m = models.make_clus(api, c)
        asked = models.neighbours(pool, c["base"], 3) + case["ask"]
        trained = set()

        def ask():
            refs, _ = models.clus_refs(c, m.json())
            same(sorted(refs), sorted(trained), "classes")
            got = m.classify(asked)
            same(len(got), len(asked), "number of answers")
            for e, g in zip(asked, got):
                counts, b, ok = models.clus_decide(refs, e, c)
                check(g in ok, "class of %r is %r, expected one of %r (active RAMs %r at threshold %d)", e, g, sorted(ok),
                      counts, b)
                if b > 1:
                    s.event("bleached")
                w = ref.winners(counts)
                if len(w) == 1 and len(trained) > 1 and len(counts) > 2 and counts[w[0]] > 0:
                    if max(counts, key=lambda k: ref.bkey(models.composite(k))) != w[0]:
                        s.nontrivial = True
                    if w[0][1] > 0:
                        s.event("won by a later discriminator")
                elif len(w) > 1:
                    s.event("tie")
            one = case["ask"][:1]
            same(m.classify(one), got[len(asked) - len(case["ask"]):][:1], "the same entry asked alone")

        for op in case["ops"]:
            if op[0] == "unsup":
                m.trainUnsupervised(pool[:2])
            elif op[0] == "inflate":
                m = api.ClusWisard(models.inflate("clus", m.json(), op, len(asked) * sum(1 for o in case["ops"] if o[0] == "ask") + len(asked) + 9))
                s.event("inflated")
            elif op[0] == "ask":
                ask()
            else:
                pairs = models.train_pairs(op, pool, labels)
                m.train([p[0] for p in pairs], [p[1] for p in pairs])
                trained |= {p[1] for p in pairs}
        ask()
        if models.ask_long(m.classify, asked, m.classify(asked), case["long"], "clus", m.json(), "to a long list"):
            s.event("hundreds or thousands of questions at once")
        if not trained:
            s.event("untrained")
