"""C19 Bit lists and packed inputs are interchangeable."""
import os

from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import ORDINARY, check, same


@st.composite
def case(draw):
    disc = draw(st.integers(0, 2)) == 0
    if disc:
        c = draw(gen.config(max_entry=40))
        c["labels"] = ["x"]
    else:
        c = draw(models.wisard_cfg(nlab=(1, 4), degrees=True, max_entry=40, nasty=draw(st.integers(0, 3)) == 0))
        c["labels"] = [l for l in c["labels"] if l] or ["x"]
        if c["mode"] == "mapping":
            c["mapping"].pop("", None)
    if gen.rarely(draw, 60) and c["mode"] != "mapping":
        # beyond a thousand bits
        n = draw(st.sampled_from([1023, 1024, 1025, 1030, 1500, 2047, 2056, 4100]))
        c.update(entry=n, mode="random" if c["mode"] == "indexes" else c["mode"])
        c.pop("indexes", None)
    wide = draw(st.integers(0, 199)) == 103 and c["mode"] != "mapping" and c["base"] == 2
    if wide:
        # beyond 2^16 positions
        c.update(entry=draw(st.sampled_from([65537, 65600, 70001])), addr=20, mode="random" if c["mode"] == "indexes" else c["mode"])
        c.pop("indexes", None)
    pool = draw(gen.entries(2, c["entry"], 2, 7))[:3 if wide else None]
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.sampled_from(["train", "train", "train", "ask", "bad", "forget"]))
        ops.append([k, draw(gen.pairs(len(pool), len(c["labels"]), 1, 6)),
                    draw(st.sampled_from(["binary", "list", "data", "file"])), draw(st.sampled_from([-2, -1, 1, 2, 8])),
                    draw(st.integers(0, 9))])
    return {"long": None if wide else draw(gen.long()), "disc": disc, "cfg": c, "pool": pool, "ops": ops, "clock": draw(gen.clock),
            "single": draw(models.single()), "series": 0 if wide else draw(st.sampled_from([0, 0, 0, 0, 0, 40, 120, 300]))}


def pack(api, e, how):
    if how == "data":
        return api.BinInput(api.BinInput(e).data())
    return api.BinInput(e)


class PROP:
    ID = "C19"
    BACKENDS = ["py", "py", "py", "py", "py", "src", "hdr", "hdr"]
    QUICK, THOROUGH = 2800, 50000
    QUICK_S = 35
    RULE = ("two copies of one Wisard or Discriminator (explicit addressing, or random addressing shared through a saved "
            "model, entries of up to 4100, some of up to 70001, bits) get the same history, one as lists, the other as BinInputs / DataSets built from lists, packed inputs, "
            "data() texts and files; contents, responses, classes, degrees and refusals (entries of another size in the "
            "middle of a batch) must agree, across both kinds of question, also asked hundreds of times in a row. Non-trivial: at least two different entries "
            "learned and some question answered with a learned pattern by some RAM but not by all")

    TECHNIQUE = "property-based testing (Hypothesis), differential between lists and packed inputs"

    @staticmethod
    def strategy(tier, backend):
        return case()

    @staticmethod
    def run(api, case, s):
        c, pool, labels = case["cfg"], case["pool"], case["cfg"]["labels"]
        s.clock(case["clock"])
        asked = models.neighbours(pool, 2, 3)
        packed = [pack(api, e, "data" if i % 2 else "binary") for i, e in enumerate(asked)]
        if case["disc"]:
            return PROP.disc(api, case, s, asked, packed)
        a = models.make_wisard(api, c)
        if c["mode"] != "indexes":
            # random addressing of every class, shared by both
            a.train([pool[0]] * len(labels), labels)
            b = api.Wisard(a.json())
        else:
            b = models.make_wisard(api, c)

        def dataset(pairs, how):
            ds = api.DataSet()
            for e, l in pairs:
                if how == "list":
                    ds.add(e, l)
                else:
                    ds.add(pack(api, e, how), l)
            if how == "file":
                p = os.path.join(s.tmp(), "d%d" % len(os.listdir(s.tmp())))
                ds.save(p)
                ds = api.DataSet(p + ".wpkds")
            return ds

        def attempt(f, *x):
            try:
                f(*x)
            except ORDINARY:
                return False
            return True

        learned = set()
        for k, raw, how, d, at in case["ops"]:
            pairs = [(pool[e], labels[l]) for e, l in raw]
            if k == "train":
                for part in ([[p] for p in pairs[:600]] + [pairs[600:]] if case.get("single") and how != "file" else [pairs]):
                    a.train([e for e, _ in part], [l for _, l in part])
                    b.train(dataset(part, how))
                learned |= {tuple(e) for e, _ in pairs}
                s.event("packed by " + how)
            elif k == "bad":
                at %= len(pairs)
                e, l = pairs[at]
                pairs[at] = ((e + [0] * d if d > 0 else e[:d]), l)
                if not pairs[at][0]:
                    continue
                r1 = attempt(a.train, [e for e, _ in pairs], [l for _, l in pairs])
                r2 = attempt(b.train, dataset(pairs, how))
                same(r2, r1, "training with an entry of size %d accepted, packed and as list" % len(pairs[at][0]))
                if not r1:
                    s.event("refused")
            elif k == "forget":
                for m in (a, b):
                    m.leaveMoreOut([e for e, _ in pairs], [l for _, l in pairs])
            else:
                ask(api, a, b, asked, packed, dataset, s)
            ca, cb = ref.wisard_content(a.json(), True), ref.wisard_content(b.json(), True)
            same(cb, ca, "content after %s, packed and as list" % k)
        ask(api, a, b, asked, packed, dataset, s)
        # one model asked again and again, packed and as list
        n = case.get("series", 0) * 256 // max(256, c["entry"])
        want = list(a.classify(asked))
        one = []
        for p in packed:
            one.append(api.DataSet())
            one[-1].add(p)
        for i in range(n):
            j = i % len(asked)
            m, q = ((a, one[j]), (b, one[j]), (b, [asked[j]]))[0 if i % 4 < 3 else 1 + i // 4 % 2]
            same(list(m.classify(q)), [want[j]], "answer %d to one question at a time" % i)
            s.event("asked dozens of times in a row")
        if models.ask_long(lambda es: b.classify(models.dataset(api, [(e, None) for e in es])), asked, list(a.classify(asked)),
                           case["long"], "wisard", a.json(), "to a large data set"):
            s.event("hundreds or thousands of packed questions at once")
        s.nontrivial = len(learned) > 1

    @staticmethod
    def disc(api, case, s, asked, packed):
        c, pool = case["cfg"], case["pool"]
        a = api.Discriminator(c["addr"], c["entry"], **gen.disc_kwargs(c))
        b = api.Discriminator(a.json())
        learned = set()
        for k, raw, how, d, _ in case["ops"]:
            es = [pool[e] for e, _ in raw]
            if k == "train":
                a.train(es)
                for e in es:
                    b.train(pack(api, e, how))
                    learned.add(tuple(e))
            elif k == "bad":
                e = es[0] + [0] * d if d > 0 else es[0][:d]
                if e:
                    for f, x in ((b.train, api.BinInput(e)), (b.classify, api.BinInput(e)), (a.train, e)):
                        try:
                            f(x)
                            ok = True
                        except ORDINARY:
                            ok = False
                        check(not ok, "an entry of size %d instead of %d is accepted", len(e), c["entry"])
                    s.event("refused")
            same(ref.disc_content(__import__("json").loads(b.json()), True),
                 ref.disc_content(__import__("json").loads(a.json()), True), "content, packed and as list")
        r = [list(a.classify(e)) for e in asked]
        same([list(b.classify(x)) for x in packed], r, "responses, packed and as list")
        same([list(a.classify(x)) for x in packed], r, "responses of one discriminator, packed and as list")
        for i in range(case.get("series", 0) * 256 // max(256, c["entry"])):
            j = i % len(asked)
            same(list((b if i % 5 == 4 else a).classify(packed[j])), r[j], "response %d to one question at a time" % i)
            s.event("asked dozens of times in a row")
        s.event("discriminator")
        s.nontrivial = len(learned) > 1 and any(0 < sum(1 for v in x if v) < len(x) for x in r)


def ask(api, a, b, asked, packed, dataset, s):
    ds = api.DataSet()
    for i, p in enumerate(packed):
        if i % 3:
            ds.add(p)
        else:
            ds.add(p, "label")
    want = a.classify(asked)
    same(a.classify(ds), want, "answers of the list-trained model, packed and as list")
    same(b.classify(ds), want, "answers of the model trained packed")
    same(b.classify(asked), want, "answers of the model trained packed, asked by list")
    same(b.getMentalImages(), a.getMentalImages(), "mental images")
