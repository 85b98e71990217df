"""C11 Clusters grow by the score rule and respect the discriminator limit."""
from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import check, same


@st.composite
def case(draw):
    c = draw(models.clus_cfg(max_entry=12))
    pool = draw(gen.entries(c["base"], c["entry"], 2, 9))
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        es = draw(gen.picked(len(pool), 1, 8, 1025))
        k = draw(st.sampled_from(["train", "train", "unsup", "many", "reload"]))
        if k == "train":
            ops.append([k, [[e, draw(st.integers(0, len(c["labels"]) - 1)) if len(es) < 20 else 0] for e in es]])
        elif k == "many":
            ops.append([k, es[0], draw(st.integers(0, len(c["labels"]) - 1)), draw(gen.times)])
        elif k == "reload" and draw(st.integers(0, 2)) == 0:
            ops.append(draw(models.inflation(models.FACTORS + [10 ** 6])))
        elif k == "unsup":
            ops.append([k, es])
        else:
            ops.append([k])
    return {"cfg": c, "pool": pool, "ops": ops, "clock": draw(gen.clock), "single": draw(models.single())}


class PROP:
    ID = "C11"
    BACKENDS = ["py", "py", "py", "py", "py", "src", "hdr", "hdr"]
    QUICK, THOROUGH = 2800, 50000
    QUICK_S = 35
    RULE = ("supervised and unsupervised histories over clusters with minScore 0..1, threshold 1..100000, limit 1..14 and "
            "all addressing options; after each call the saved clusters must be a result the score rule allows from the "
            "clusters before the call (decisions within float rounding of a limit may go either way; counted). "
            "Non-trivial: some cluster has two discriminators and at least two of {new, joined, several at once, forced "
            "onto the best one} happened")
    ASSUMPTIONS = ["float rounding: scores within 1e-5 of a limit may fall on either side"]

    @staticmethod
    def strategy(tier, backend):
        return case()

    @staticmethod
    def run(api, case, s):
        api = models.calls(api, case, s)
        c, pool, labels = case["cfg"], case["pool"], case["cfg"]["labels"]
        s.clock(case["clock"])
        m = models.make_clus(api, c)
        _, clusters, un = ref.cluswisard_content(m.json())
        same((clusters, un), ({}, None), "content of a new model")
        kinds = {}
        most = 0
        for op in case["ops"]:
            todo, todo_un = {}, []
            if op[0] == "inflate":
                # the sum of a discriminator's counters stays a whole number a float can hold: the score is exact before
                # its division
                text = models.inflate("clus", m.json(), op, cap=2 ** 23 // (-(-c["entry"] // c["addr"])))
                m = api.ClusWisard(text)
                _, clusters, un = ref.cluswisard_content(text)
                s.event("inflated")
                continue
            if op[0] == "train":
                m.train([pool[e] for e, _ in op[1]], [labels[l] for _, l in op[1]])
                for e, l in op[1]:
                    todo.setdefault(labels[l], []).append(pool[e])
            elif op[0] == "many":
                m.train([pool[op[1]]] * op[3], [labels[op[2]]] * op[3])
                todo[labels[op[2]]] = [pool[op[1]]] * op[3]
            elif op[0] == "unsup":
                todo_un = [pool[e] for e in op[1]]
                m.trainUnsupervised(todo_un)
            else:
                m = api.ClusWisard(m.json())
            before, before_un = clusters, un
            _, clusters, un = ref.cluswisard_content(m.json())
            same(sorted(clusters), sorted(set(before) | set(todo)), "classes")
            for l in clusters:
                if l not in todo:
                    same(clusters[l], before[l], "cluster of %r, which learned nothing" % l)
            if not todo_un:
                same(un, before_un, "unsupervised cluster, which learned nothing")
            work = [(l, before.get(l), es, clusters[l]) for l, es in todo.items()]
            if todo_un:
                check(un is not None, "trainUnsupervised created no discriminator")
                work.append(("unsupervised", before_un, todo_un, un))
            for name, b, es, a in work:
                same(a["entrySize"], c["entry"], "entry size of cluster %r" % name)
                n = len(a["discriminators"])
                most = max(most, n)
                check(1 <= n <= c["limit"], "cluster %r has %d discriminators, the limit is %d", name, n, c["limit"])
                old = b["discriminators"] if b else []
                check(n >= len(old), "cluster %r lost discriminators", name)
                for i, d in enumerate(old):
                    same(a["discriminators"][i]["mapping"], d["mapping"], "addressing of discriminator %d of %r" % (i, name))
                    check(a["discriminators"][i]["count"] >= d["count"], "discriminator %d of %r forgot", i, name)
                for d in a["discriminators"]:
                    rams = len(d["mapping"])
                    want = -(-c["entry"] // c["addr"]) if c["complete"] else c["entry"] // c["addr"]
                    same(rams, want, "number of RAMs of a discriminator")
                    check(all(len(x) == c["addr"] for x in d["mapping"]), "address size of %r", d["mapping"])
                ok, amb, stats = models.grow(c, b, es, a)
                check(ok, "cluster %r learned %r: from %r to %r", name, es, b, a)
                if amb:
                    s.event("within rounding")
                for k, v in stats.items():
                    if v:
                        kinds[k] = kinds.get(k, 0) + v
        for k in kinds:
            s.event(k)
        # equal to the limit
        if most == c["limit"] and most > 1:
            s.event("limit reached")
        s.nontrivial = most > 1 and len(kinds) > 1
