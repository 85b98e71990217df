"""C05 Wisard learning is additive, order-free and isolated per class."""
import json

from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import same


@st.composite
def case(draw):
    c = draw(models.wisard_cfg(nlab=(1, 4)))
    pool = draw(gen.entries(c["base"], c["entry"], 1, 6))
    if gen.middle(draw, 200):
        r = gen.rng(draw)
        pairs = [[r.randrange(len(pool)), r.randrange(len(c["labels"]))] for _ in range(r.choice(gen.LONG + [10001]))]
    elif len(pool) > 20 or len(c["labels"]) > 8:
        r = gen.rng(draw)
        pairs = [[r.randrange(len(pool)), r.randrange(len(c["labels"]))]
                 for _ in range(r.randint(20, max(60, 2 * len(pool))))]
    else:
        pairs = draw(st.lists(st.tuples(st.integers(0, len(pool) - 1), st.integers(0, len(c["labels"]) - 1)).map(list),
                              min_size=1, max_size=14))
    order = draw(gen.permutation(len(pairs)))
    cut = st.lists(st.integers(0, 3) if len(pairs) < 20 or len(pairs) < 1100 and draw(st.integers(0, 2)) == 1
                   else st.integers(10, 400) if len(pairs) < 1000 else
                   st.integers(500, 20000), min_size=1, max_size=14)
    return {"cfg": c, "pool": pool, "pairs": pairs, "order": list(order), "cuts": [draw(cut), draw(cut)],
            "reads": draw(st.integers(0, 2)), "clock": draw(gen.clock)}


def batches(seq, cuts):
    out, i, k = [], 0, 0
    while i < len(seq):
        n = cuts[k % len(cuts)] + 1
        out.append(seq[i:i + n])
        i += n
        k += 1
    return out


class PROP:
    ID = "C05"
    BACKENDS = ["py", "py", "py", "py", "py", "src", "hdr", "hdr"]
    QUICK, THOROUGH = 3000, 50000
    QUICK_S = 35
    RULE = ("a multiset of (entry, label) pairs learned twice: in two orders, two splits into calls (lists or data sets), "
            "with reads in between in one of them; RAM contents are compared with an order-free reference and with each "
            "other, and the content of untouched classes is compared around every call. Non-trivial: at least two "
            "classes, at least four pairs and a different order")

    @staticmethod
    def strategy(tier, backend):
        return case()

    @staticmethod
    def run(api, case, s):
        c, pool = case["cfg"], case["pool"]
        pairs = [(pool[i], c["labels"][l]) for i, l in case["pairs"]]
        s.clock(case["clock"])
        contents = []
        for k in (0, 1):
            seq = pairs if k == 0 else [pairs[i] for i in case["order"]]
            w = models.make_wisard(api, c)
            rw = models.RefWisard(c, w)
            before = {}
            for bi, b in enumerate(batches(seq, case["cuts"][k])):
                usable = all(models.bits(e) and l for e, l in b)
                if k == 1 and usable and bi % 2:
                    w.train(models.dataset(api, b))
                    s.event("learned packed")
                else:
                    w.train([e for e, _ in b], [l for _, l in b])
                rw.train(b)
                if k == 1 and case["reads"]:
                    w.classify([e for e, _ in b])
                    if case["reads"] > 1:
                        w.getMentalImages()
                        w.jsonConfig()
                now = ref.wisard_content(w.json())[1]
                touched = {l for _, l in b}
                for l in before:
                    if l not in touched:
                        same(now.get(l), before[l], "class %r after learning %r" % (l, sorted(touched)))
                        s.event("isolation judged")
                before = now
            models.compare_content(before, rw, "learned %s" % ("in order" if k == 0 else "reordered"))
            contents.append((before, {l: i for l, i in w.getMentalImages().items()}))
            same(contents[-1][1], rw.mental(), "mental images")
        explicit = c["mode"] == "indexes" or (c["mode"] == "mapping" and (
            c.get("indexes") or all(l in c["mapping"] for l in {l for _, l in pairs})))
        if explicit:
            same(contents[1], contents[0], "the same pairs in another order")
            s.event("orders compared directly")
        s.size(pairs, range(c["entry"] // c["addr"]))
        s.nontrivial = len({l for _, l in pairs}) > 1 and len(pairs) >= 4 and case["order"] != sorted(case["order"])
