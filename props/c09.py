"""C09 A configuration-only save reloads as the same model without knowledge."""
import json

from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import check, same


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["wisard", "wisard", "disc", "clus"]))
    if kind == "disc":
        c = draw(gen.config())
        pool = draw(gen.entries(c["base"], c["entry"], 1, 5))
        ops = draw(st.lists(st.tuples(st.integers(0, len(pool) - 1), gen.times).map(list), max_size=5))
    else:
        nasty = draw(st.integers(0, 2)) == 0
        if kind == "wisard":
            c = draw(models.wisard_cfg(nlab=(1, 4), nasty=nasty, degrees=True))
        else:
            c = draw(models.clus_cfg(nasty=nasty, degrees=True, max_entry=10))
        pool = draw(gen.entries(c["base"], c["entry"], 1, 5))
        ops = draw(models.history(len(pool), len(c["labels"]), ("train",) if kind == "clus" else ("train", "train", "forget"),
                                  0, 5))
        if kind == "wisard" and draw(st.integers(0, 3)) == 0:
            ops.append(["forget"])
    return {"kind": kind, "cfg": c, "pool": pool, "ops": ops, "clock": draw(gen.clock), "single": draw(models.single()), "clock2": draw(gen.clock)}


class PROP:
    ID = "C09"
    BACKENDS = ["py", "py", "py", "py", "py", "src", "hdr", "hdr"]
    QUICK, THOROUGH = 3000, 50000
    QUICK_S = 35
    RULE = ("trained and untrained Discriminators, Wisards and ClusWisards over all options; the model rebuilt from "
            "jsonConfig() must have the options, classes and addressing but no knowledge, and (Wisard, Discriminator) "
            "become equal to the original when it learns the same entries. Non-trivial: the original had learned "
            "something")

    @staticmethod
    def strategy(tier, backend):
        return case()

    @staticmethod
    def run(api, case, s):
        api = models.calls(api, case, s)
        c, pool, kind = case["cfg"], case["pool"], case["kind"]
        s.event(kind)
        s.clock(case["clock"])
        asked = models.neighbours(pool, c["base"], 2)
        if kind == "disc":
            a = api.Discriminator(c["addr"], c["entry"], **gen.disc_kwargs(c))
            for e, t in case["ops"]:
                a.train([pool[e]] * t)
            s.nontrivial = bool(case["ops"])
            ja = json.loads(a.json())
            text = a.jsonConfig()
            s.clock(case["clock2"])
            b = api.Discriminator(text)
            jb = json.loads(b.json())
            for k in ("entrySize", "mapping", "ignoreZero", "base"):
                same(jb.get(k), ja.get(k), "rebuilt discriminator: " + k)
            same(jb["count"], 0, "trainings of the rebuilt discriminator")
            check(not any(ref.decode_data(jb["data"], len(jb["mapping"]))), "the rebuilt discriminator has knowledge")
            for e in asked:
                same(list(b.classify(e)), [0] * len(ja["mapping"]), "responses without knowledge")
            for e, t in case["ops"]:
                b.train([pool[e]] * t)
            same(ref.disc_content(json.loads(b.json())), ref.disc_content(ja), "rebuilt and trained discriminator")
            for e in asked:
                same(list(b.classify(e)), list(a.classify(e)), "responses of the rebuilt and trained discriminator")
            return
        labels = c["labels"]
        clus = kind == "clus"
        a = (models.make_clus if clus else models.make_wisard)(api, c)
        steps = []    # ("train" or "forget", entries, labels)
        known = []
        for op in case["ops"]:
            if op[0] == "forget":
                ps, known = (known, []) if len(case["ops"]) % 2 else (known[::2], known[1::2])
                if ps:
                    s.event("forgot everything" if not known else "forgot")
            else:
                ps = models.train_pairs(op, pool, labels)
                known = known + ps
            if ps:
                steps.append((op[0], [p[0] for p in ps], [p[1] for p in ps]))

        def replay(m):
            for k, es, ls in steps:
                (m.leaveMoreOut if k == "forget" else m.train)(es, ls)

        replay(a)
        if clus and len(pool) % 2:
            a.trainUnsupervised(pool)
            s.nontrivial = True
        s.nontrivial = s.nontrivial or bool(case["ops"])
        s.clock(case["clock2"])
        if clus:
            b = api.ClusWisard(a.jsonConfig())
            oa, _, _ = ref.cluswisard_content(a.json())
            ob, cb, ub = ref.cluswisard_content(b.json())
            same(ob, oa, "options of the rebuilt model")
            models.saved_options(ob, c, clus)
            same((cb, ub), ({}, None), "knowledge of the rebuilt model")
            same([models.out_class(o) for o in b.classify(asked)], [""] * len(asked), "classes without knowledge")
            same(list(b.classifyUnsupervised(asked)), [""] * len(asked), "unsupervised classes without knowledge")
            replay(b)
            _, cb, _ = ref.cluswisard_content(b.json())
            todo = {}
            for _, es, ls in steps:
                for e, l in zip(es, ls):
                    todo.setdefault(l, []).append(e)
            same(sorted(cb), sorted(todo), "classes of the retrained model")
            if len(pool) % 3:
                b.trainUnsupervised(pool)
            _, cb, ub = ref.cluswisard_content(b.json())
            todo = [(l, es, cb[l]) for l, es in todo.items()] + ([("unsupervised", pool, ub)] if len(pool) % 3 else [])
            for l, es, k in todo:
                for i, d in enumerate(k["discriminators"]):
                    models.random_ok(d["mapping"], c["entry"], c["addr"], c["complete"], "discriminator %d of %r" % (i, l))
                check(len(k["discriminators"]) <= c["limit"], "more discriminators than the limit")
                ok, _, _ = models.grow(c, None, es, k)
                check(ok, "cluster %r of the rebuilt model learned %r: %r", l, es, k)
            return
        b = api.Wisard(a.jsonConfig())
        oa, ca = ref.wisard_content(a.json())
        ob, cb = ref.wisard_content(b.json())
        same(ob, oa, "options of the rebuilt model")
        models.saved_options(ob, c, clus)
        same(sorted(cb), sorted(ca), "classes of the rebuilt model")
        for l in ca:
            for k in ("entrySize", "mapping"):
                same(cb[l][k], ca[l][k], "%s of the rebuilt class %r" % (k, l))
            same(cb[l]["count"], 0, "trainings of the rebuilt class")
            check(not any(cb[l]["rams"]), "the rebuilt class %r has knowledge", l)
        same(b.getMentalImages(), {l: [0] * c["entry"] for l in ca}, "mental images without knowledge")
        replay(b)
        same(ref.wisard_content(b.json())[1], ca, "rebuilt and trained model")
        same(b.classify(asked), a.classify(asked), "answers of the rebuilt and trained model")
        same(b.getMentalImages(), a.getMentalImages(), "mental images of the rebuilt and trained model")
        if "fresh ::" not in labels:
            # a class that is new to both
            b.train(pool, ["fresh ::"] * len(pool))
            d = ref.wisard_content(b.json())[1]["fresh ::"]
            models.judge(c, d["mapping"], None, "new class of the rebuilt model")
            same(d["count"], len(pool), "trainings of the new class")
