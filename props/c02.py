"""C02 Addressing covers the input exactly as configured."""
import json

from hypothesis import strategies as st

from vlib import gen, models
from vlib.core import same


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["disc", "wisard", "wisard", "clus"]))
    clock = draw(gen.clock)
    if kind == "disc":
        c = draw(gen.config(max_entry=60))
        pool = draw(gen.entries(c["base"], c["entry"], 1, 3))
        huge = gen.huge(draw, 300)
        if huge:
            c, pool = huge
        return {"kind": kind, "cfg": c, "pool": pool, "clock": clock, "single": draw(models.single())}
    if kind == "wisard":
        c = draw(models.wisard_cfg(nlab=(1, 13), max_entry=60))
        pool = draw(gen.entries(c["base"], c["entry"], 1, 3))
        ops = draw(models.history(len(pool), len(c["labels"]), ("train", "train", "reads"), 1, 5, st.integers(1, 3)))
        if gen.rarely(draw, 4):
            # classes forget all they learned, and some learn again
            for _ in range(draw(st.integers(1, 2))):
                ops.append(["forget", draw(st.integers(0, 12)), draw(st.booleans())])
                if draw(st.booleans()):
                    ops += draw(models.history(len(pool), len(c["labels"]), ("train", "reads"), 1, 2, st.integers(1, 3)))
        return {"kind": kind, "cfg": c, "pool": pool, "ops": ops, "clock": clock, "single": draw(models.single())}
    c = draw(models.clus_cfg(max_entry=40))
    pool = draw(gen.entries(c["base"], c["entry"], 1, 6))
    ops = draw(models.history(len(pool), len(c["labels"]), ("train", "train", "unsup", "reads"), 1, 5,
                              st.integers(1, 3)))
    return {"kind": kind, "cfg": c, "pool": pool, "ops": ops, "clock": clock, "single": draw(models.single())}


class PROP:
    ID = "C02"
    BACKENDS = ["py", "py", "py", "py", "py", "src", "hdr", "hdr"]
    QUICK, THOROUGH = 3500, 50000
    QUICK_S = 30
    RULE = ("discriminators, Wisards (up to 13 classes) and ClusWisards over entry sizes 2..130, every addressing mode, "
            "with training, reading and forgetting in between; the addressing read back from the saved model is judged. "
            "Non-trivial: the entry size is not a multiple of the address size, or the addressing is explicit, or "
            "there are at least two classes or discriminators")

    @staticmethod
    def strategy(tier, backend):
        return case()

    @staticmethod
    def run(api, case, s):
        api = models.calls(api, case, s)
        c, pool = case["cfg"], case["pool"]
        n, a = c["entry"], c["addr"]
        s.clock(case["clock"])
        s.event(case["kind"])
        s.event("mode " + c.get("mode", "random"))
        if n % a:
            s.event("remainder")
        if case["kind"] == "disc":
            d = api.Discriminator(a, n, **gen.disc_kwargs(c))
            m = json.loads(d.json())["mapping"]
            models.judge(c, m, c.get("mapping"), "discriminator")
            for e in pool:
                d.train(e)
                d.classify(e)
            same(json.loads(d.json())["mapping"], m, "addressing after training")
            same(json.loads(d.jsonConfig())["mapping"], m, "addressing of jsonConfig")
            s.nontrivial = n % a != 0 or c["mode"] in ("indexes", "mapping")
            return
        maps = {}
        if case["kind"] == "wisard":
            w = models.make_wisard(api, c)
            known = {}
            for op in case["ops"]:
                if op[0] == "forget":
                    l = sorted(known)[op[1] % len(known)] if known else None
                    if l is not None:
                        w.leaveMoreOut(known[l], [l] * len(known[l]))
                        known[l] = []
                        if op[2]:
                            w.train([pool[0]], [l])
                            known[l] = [pool[0]]
                        s.event("forgot a class")
                elif op[0] == "reads":
                    w.classify([pool[i] for i in op[1]])
                    w.getMentalImages()
                else:
                    pairs = models.train_pairs(op, pool, c["labels"])
                    w.train([p[0] for p in pairs], [p[1] for p in pairs])
                    for e, l in pairs:
                        known.setdefault(l, []).append(e)
                for l, d in (json.loads(w.json()).get("classes") or {}).items():
                    if l in maps:
                        same(d["mapping"], maps[l], "addressing of %r changed" % l)
                    maps[l] = d["mapping"]
                    same(d["entrySize"], n, "entry size")
                    models.judge(c, d["mapping"], c.get("mapping", {}).get(l) if c["mode"] == "mapping" else None,
                               "class %r" % l)
            s.nontrivial = len(maps) > 1 or n % a != 0 or c["mode"] in ("indexes", "mapping")
            return
        w = models.make_clus(api, c)
        for op in case["ops"]:
            if op[0] == "reads":
                w.classify([pool[i] for i in op[1]])
                w.getMentalImages()
            elif op[0] == "unsup":
                w.trainUnsupervised(pool)
            else:
                pairs = models.train_pairs(op, pool, c["labels"])
                w.train([p[0] for p in pairs], [p[1] for p in pairs])
            j = json.loads(w.json())
            cl = dict(("c:" + l, k) for l, k in (j.get("clusters") or {}).items())
            if j.get("unsupervisedCluster"):
                cl["u"] = j["unsupervisedCluster"]
            for l, k in cl.items():
                for i, d in enumerate(k["discriminators"]):
                    if (l, i) in maps:
                        same(d["mapping"], maps[(l, i)], "addressing of discriminator %d of %r changed" % (i, l))
                    maps[(l, i)] = d["mapping"]
                    models.random_ok(d["mapping"], n, a, c["complete"], "discriminator %d of %r" % (i, l))
        s.nontrivial = len(maps) > 1
