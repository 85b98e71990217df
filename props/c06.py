"""C06 Forgetting is the exact inverse of learning."""
import json

from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import same


@st.composite
def case(draw):
    c = draw(models.wisard_cfg(nlab=(1, 4), degrees=True))
    pool = draw(gen.entries(c["base"], c["entry"], 1, 6))
    n, k = len(pool), len(c["labels"])
    ops = []
    have = {}
    if n > 20 and draw(st.integers(0, 3)):
        # a large batch, most of it forgotten again
        r = gen.rng(draw)
        ps = [(r.randrange(n), r.randrange(k)) for _ in range(r.randint(20, 2 * n))]
        ops.append(["learn", [list(p) for p in ps]])
        r.shuffle(ps)
        cut = r.randint(1, len(ps))
        ops.append(["forget", [list(p) for p in ps[:cut]]])
        for p in ps[cut:]:
            have[p] = have.get(p, 0) + 1
    for _ in range(draw(st.integers(1, 9))):
        if have and draw(st.integers(0, 9)) < 5:
            if draw(st.booleans()):
                e, l = draw(st.sampled_from(sorted(have)))
                t = draw(st.integers(1, have[(e, l)]))
                if draw(st.integers(0, 2)) == 0:
                    t = have[(e, l)]
                ops.append(["forget", [[e, l]] * min(t, 40)])
            else:
                fl = [p for p, v in sorted(have.items()) for _ in range(min(v, 3))]
                sel = draw(st.lists(st.integers(0, len(fl) - 1), unique=True, min_size=1, max_size=6))
                ops.append(["forget", [list(fl[i]) for i in sel]])
            for p in ops[-1][1]:
                have[tuple(p)] -= 1
                if not have[tuple(p)]:
                    del have[tuple(p)]
        elif draw(st.integers(0, 9)) == 0:
            known = []
            if have and draw(st.booleans()):
                known = [list(p) for p in draw(st.lists(st.sampled_from(sorted(have)), max_size=3, unique=True))]
                for p in known:
                    have[tuple(p)] -= 1
                    if not have[tuple(p)]:
                        del have[tuple(p)]
            ops.append(["unknown", draw(st.integers(0, n - 1)), draw(st.sampled_from(["never", "", "zz", "a:"])), known,
                        draw(st.integers(0, 3))])
        else:
            e, l = draw(st.integers(0, n - 1)), draw(st.integers(0, k - 1))
            t = draw(st.one_of(st.integers(1, 4), gen.times))
            ops.append(["train", e, l, t])
            have[(e, l)] = have.get((e, l), 0) + t
    if gen.rarely(draw, 12):
        ops.insert(draw(st.integers(0, len(ops))), draw(models.inflation()))
    return {"cfg": c, "pool": pool, "ops": ops, "clock": draw(gen.clock), "single": draw(models.single())}


class PROP:
    ID = "C06"
    BACKENDS = ["py", "py", "py", "py", "py", "src", "hdr", "hdr"]
    QUICK, THOROUGH = 3000, 50000
    QUICK_S = 35
    RULE = ("interleavings of training with leaveOneOut / leaveMoreOut of entries that are learned at that moment, and of "
            "forgetting under unknown labels; after every step the RAM contents (counters of 0 count as absent), "
            "number of trainings, classes, mental images and classes are compared with reference counters, at the "
            "end also with a model that never learned them. Non-trivial: something was forgotten and something "
            "learned remains")

    @staticmethod
    def strategy(tier, backend):
        return case()

    @staticmethod
    def run(api, case, s):
        api = models.calls(api, case, s)
        c, pool, labels = case["cfg"], case["pool"], case["cfg"]["labels"]
        s.clock(case["clock"])
        w = models.make_wisard(api, c)
        rw = models.RefWisard(c, w)
        net = {}
        first = []
        asked = models.neighbours(pool, c["base"], 2)
        forgot = inflated = False
        for op in case["ops"]:
            if op[0] == "inflate":
                w = rw.inflate(api.Wisard, op + [], len(asked) * 2)
                inflated = True
                s.event("inflated")
                continue
            if op[0] == "train":
                e, l, t = pool[op[1]], labels[op[2]], op[3]
                w.train([e] * t, [l] * t)
                rw.train([(e, l)] * t)
                net[(op[1], op[2])] = net.get((op[1], op[2]), 0) + t
                if l not in first:
                    first.append(l)
            elif op[0] == "learn":
                ps = [(pool[e], labels[l]) for e, l in op[1]]
                w.train([p[0] for p in ps], [p[1] for p in ps])
                rw.train(ps)
                for e, l in op[1]:
                    net[(e, l)] = net.get((e, l), 0) + 1
            elif op[0] == "unknown":
                if op[2] in labels:
                    continue
                # an unknown label alone, twice, and between known ones
                w.leaveOneOut(pool[op[1]], op[2])
                w.leaveMoreOut([pool[op[1]]] * 2, [op[2]] * 2)
                ps = [(pool[e], labels[l]) for e, l in op[3]]
                rw.untrain(ps)
                for e, l in op[3]:
                    net[(e, l)] -= 1
                ps.insert(op[4] % (len(ps) + 1), (pool[op[1]], op[2]))
                w.leaveMoreOut([p[0] for p in ps], [p[1] for p in ps])
                if op[3]:
                    s.event("unknown label among known ones")
                    forgot = True
                s.event("unknown label")
            else:
                ps = [(pool[e], labels[l]) for e, l in op[1]]
                if len(ps) == 1 and op[1][0][0] % 2 == 0:
                    w.leaveOneOut(ps[0][0], ps[0][1])
                else:
                    w.leaveMoreOut([p[0] for p in ps], [p[1] for p in ps])
                rw.untrain(ps)
                for e, l in op[1]:
                    net[(e, l)] -= 1
                forgot = True
                s.event("forgotten", len(ps))
            models.compare_content(ref.wisard_content(w.json())[1], rw, "after %s" % op[0])
        same(w.getMentalImages(), rw.mental(), "mental images")
        got = [models.out_class(o) for o in w.classify(asked)]
        same(got, [rw.classify(e) for e in asked], "classes after forgetting")
        if api.__name__ != "wisardpkg" and not inflated:
            for l, d in (json.loads(w.json()).get("classes") or {}).items():
                PROP.discriminator(api, c, d, rw.classes[l], pool, net, labels.index(l), s)
        if inflated:
            s.nontrivial = forgot
            return
        # the model that never learned what was forgotten: same addressing, loaded from the configuration of this one
        j = json.loads(w.json())
        for l, d in (j.get("classes") or {}).items():
            d["data"], d["count"] = ".".join([""] * len(d["mapping"])), 0
        v = api.Wisard(json.dumps(j))
        for (e, l), t in sorted(net.items()):
            if t:
                v.train([pool[e]] * t, [labels[l]] * t)
        same(w.classify(asked), v.classify(asked), "answers compared with a model that never learned it")
        same(w.getMentalImages(), v.getMentalImages(), "mental images compared with a model that never learned it")
        s.nontrivial = forgot and any(net.values())
        s.size(net, range(c["entry"] // c["addr"]))
        if forgot and not any(net.values()):
            s.event("everything forgotten")

    @staticmethod
    def discriminator(api, c, saved, r, pool, net, li, s):
        """Discriminator.untrain (C++ only): forget everything again through the discriminator."""
        d = api.Discriminator(json.dumps(dict(saved, ignoreZero=c["ignoreZero"], base=c["base"])))
        todo = [(e, t) for (e, l), t in sorted(net.items()) if l == li and 0 < t <= 60][:40]
        rr = ref.RefDisc(r.mapping, c["base"], c["ignoreZero"])
        rr.rams = [x.copy() for x in r.rams]
        rr.count = r.count
        for e, t in todo:
            for _ in range(t):
                d.untrain(pool[e])
            rr.untrain(pool[e], t)
            for x in pool[:20]:
                same(list(d.classify(x)), rr.votes(x), "responses after Discriminator.untrain")
            same(d.getNumberOfTrainings(), rr.count, "number of trainings")
            same(list(d.getMentalImage()), rr.mental(c["entry"]), "mental image of the discriminator")
            s.event("discriminator untrain")
