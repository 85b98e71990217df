"""C03 Wisard classification is the bleaching decision over class responses."""
from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import same


@st.composite
def case(draw):
    c = draw(models.wisard_cfg(nlab=(1, 5), max_entry=30))
    pool = draw(gen.entries(c["base"], c["entry"], 2, 6))
    tm = gen.times_big if draw(st.integers(0, 80)) == 0 and c["entry"] <= 10 else gen.times
    ops = draw(models.history(len(pool), len(c["labels"]), ("train",) * 5 + ("reads",), 0, 7, tm))
    if draw(st.integers(0, 9)):
        r = gen.rng(draw)
        if len(c["labels"]) > 40 and draw(st.booleans()):
            # many classes trained alike: most of them tie
            ops.insert(0, ["train", [[e, i] for e in r.sample(range(len(pool)), r.randint(1, 2))
                                     for i in range(len(c["labels"]))]])
        else:
            ops.insert(0, ["train", [[r.randrange(len(pool)), i % len(c["labels"])]
                                     for i in range(draw(st.integers(1, 3)) * len(c["labels"]))]])
    if gen.rarely(draw, 8):
        ops.append(draw(models.inflation()))
        if draw(st.booleans()):
            ops.append(["reads", [0, len(pool) - 1]])
            ops += draw(models.history(len(pool), len(c["labels"]), ("train",), 1, 2))
    return {"cfg": c, "pool": pool, "ops": ops, "clock": draw(gen.clock), "single": draw(models.single()), "deg": draw(st.integers(0, 7)) == 0, "long": draw(gen.long()),
            "sbc": draw(st.integers(0, 7)) == 0}


class PROP:
    ID = "C03"
    BACKENDS = ["py", "py", "py", "py", "py", "src", "hdr", "hdr"]
    QUICK, THOROUGH = 3500, 60000
    QUICK_S = 35
    RULE = ("Wisards over all addressing modes, bases, confidences up to the number of RAMs and 1..5 classes, trained "
            "with 1..70000 repetitions; every entry of the pool, its neighbours and the constant entries are "
            "classified (lists, packed, single and batched) and compared with a reference of the decision. "
            "Non-trivial: some decision needed a threshold above 1 (bleaching took place)")

    @staticmethod
    def strategy(tier, backend):
        return case()

    @staticmethod
    def run(api, case, s):
        api = models.calls(api, case, s)
        c, pool = case["cfg"], case["pool"]
        s.clock(case["clock"])
        more = {}
        if case["deg"]:
            more["returnConfidence"] = True
        if case["sbc"]:
            more["searchBestConfidence"] = True
        w = models.make_wisard(api, c, **more)
        rw = models.RefWisard(c, w)
        asked = models.neighbours(pool, c["base"])

        def ask(es, packed=True):
            want = []
            for e in es:
                counts, b = rw.decide(e)
                want.append(ref.winner(counts))
                top = sorted(counts.values(), reverse=True)
                if b > 1:
                    s.nontrivial = True
                    s.event("bleaching")
                    if b > 3:
                        s.event("threshold > 3")
                if len(top) > 1 and top[0] == top[1]:
                    s.event("tie")
                elif len(top) > 1 and 0 < top[0] - top[1] < c["confidence"]:
                    s.event("lead below confidence")
            got = [models.out_class(o) for o in w.classify(es)]
            same(got, want, "classes of %d entries" % len(es))
            if packed and all(models.bits(e) for e in es):
                ds = models.dataset(api, [(e, None) for e in es])
                same([models.out_class(o) for o in w.classify(ds)], want, "classes of packed entries")

        for op in case["ops"]:
            if op[0] == "reads":
                ask([pool[i] for i in op[1]])
                continue
            if op[0] == "inflate":
                w = rw.inflate(api.Wisard, op, 3 * len(asked))
                s.event("inflated")
                continue
            pairs = models.train_pairs(op, pool, c["labels"])
            w.train([p[0] for p in pairs], [p[1] for p in pairs])
            rw.train(pairs)
        ask(asked)
        for e in pool[:2]:
            ask([e])
        same(list(w.classify([])), [], "classes of no entries")
        if case["long"]:
            want = [rw.classify(e) for e in asked]
            if models.ask_long(lambda es: [models.out_class(o) for o in w.classify(es)], asked, want, case["long"], "wisard",
                               w.json(), "to a long list"):
                s.event("hundreds or thousands of questions at once")
        s.event("classes %d" % len(rw.classes))
        if not c["bleachingActivated"]:
            s.event("bleaching off")
        if c["confidence"] > 1:
            s.event("confidence > 1")
