"""C14 Unsupervised learning accumulates and is independent of the classes."""
from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import check, same


@st.composite
def case(draw):
    c = draw(models.clus_cfg(max_entry=12, nlab=(1, 3)))
    pool = draw(gen.entries(c["base"], c["entry"], 2, 9))
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.sampled_from(["unsup", "unsup", "unsup", "sup", "semi", "reload", "ask"]))
        if k == "reload" and draw(st.integers(0, 1)):
            ops.append(draw(models.inflation()))
            continue
        ops.append([k, draw(gen.picked(len(pool), 1, 7, 1025)),
                    draw(st.sampled_from([1, 1, 1, 3]))])
    return {"cfg": c, "pool": pool, "ops": ops, "clock": draw(gen.clock), "single": draw(models.single()), "long": draw(gen.long())}


class PROP:
    ID = "C14"
    BACKENDS = ["py", "py", "py", "py", "py", "src", "hdr", "hdr"]
    QUICK, THOROUGH = 2800, 50000
    QUICK_S = 35
    RULE = ("histories mixing unsupervised, supervised and semi-supervised training, reloads and questions; after each call "
            "the unsupervised cluster must be a result of the score rule from what it held before and the classes must be "
            "untouched (and the other way round); classifyUnsupervised must name a winner of the bleaching decision. "
            "Non-trivial: at least two unsupervised calls with other training between them and two discriminators")
    ASSUMPTIONS = ["float rounding: scores within 1e-5 of a limit may fall on either side",
                   "whether the confidence option applies to classifyUnsupervised is left open"]

    @staticmethod
    def strategy(tier, backend):
        return case()

    @staticmethod
    def run(api, case, s):
        api = models.calls(api, case, s)
        c, pool, labels = case["cfg"], case["pool"], case["cfg"]["labels"]
        s.clock(case["clock"])
        m = models.make_clus(api, c)
        asked = models.neighbours(pool, c["base"], 3)
        if len(pool) > 20:
            asked = asked[::1 + len(asked) // 100]
        _, sup, un = ref.cluswisard_content(m.json())
        order = []

        def ask():
            got = m.classifyUnsupervised(asked)
            same(len(got), len(asked), "number of answers")
            if un is None:
                same(set(got), {""}, "answers before unsupervised training")
                return
            rc = models.from_content(c, un)
            for e, g in zip(asked, got):
                votes = {str(i): v for i, v in enumerate(rc.votes(e))}
                ok = set()
                for conf in {1, c["confidence"]}:
                    counts, b = ref.bleach_fast(votes, c["bleachingActivated"], conf)
                    top = ref.winners(counts)
                    ok |= {max(top, key=int), max(top)}
                check(g in ok, "unsupervised class of %r is %r, expected one of %r", e, g, sorted(ok))
                if len(votes) > 1 and len(top) == 1:
                    s.event("unique winner")

        for k, es, times in case["ops"]:
            if k == "inflate":
                t = models.inflate("clus", m.json(), [k, es, times], len(case["ops"]) * len(asked))
                m = api.ClusWisard(t)
                _, sup, un = ref.cluswisard_content(t)
                s.event("inflated")
                continue
            x = ([pool[e] for e in es] * (1 if len(es) > 200 else times))[:300 if c["limit"] > 100 else None]
            if k == "ask":
                ask()
                continue
            if k == "unsup":
                m.trainUnsupervised(x)
            elif k == "sup":
                m.train(x, [labels[i % len(labels)] for i in range(len(x))])
            elif k == "semi":
                m.train(x, {0: labels[0]})
            else:
                m = api.ClusWisard(m.json())
            order.append(k)
            before_sup, before = sup, un
            _, sup, un = ref.cluswisard_content(m.json())
            if k == "unsup":
                same(sup, before_sup, "classes after unsupervised training")
                check(un is not None, "unsupervised training left nothing")
                same(un["entrySize"], c["entry"], "entry size of the unsupervised cluster")
                check(len(un["discriminators"]) <= c["limit"], "%d discriminators, limit %d",
                      len(un["discriminators"]), c["limit"])
                ok, amb, _ = models.grow(c, before, x, un)
                check(ok, "unsupervised cluster learned %r: from %r to %r", x, before, un)
                if before:
                    s.event("accumulated")
            else:
                same(un, before, "unsupervised cluster after %s" % k)
            ask()
        if models.ask_long(m.classifyUnsupervised, asked, m.classifyUnsupervised(asked), case["long"], "clus", m.json(),
                           "to a long list"):
            s.event("hundreds or thousands of questions at once")
        u = [i for i, k in enumerate(order) if k == "unsup"]
        if len(u) > 1 and u[-1] - u[0] >= len(u) and un and len(un["discriminators"]) > 1:
            s.nontrivial = True
        if c["base"] > 2:
            s.event("base > 2")
        if not c["complete"]:
            s.event("incomplete addressing")
