"""C27 Reading never changes a model."""
import json
import os

from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import check, same

READS = ["classify", "classify", "dataset", "one", "empty", "mental", "image", "unknown", "json", "jsonConfig", "files", "size",
         "unsup", "degrees"]


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["disc", "wisard", "wisard", "clus", "clus"]))
    if kind == "disc":
        c = draw(gen.config(max_entry=14))
        c["labels"] = ["x"]
    elif kind == "wisard":
        c = draw(models.wisard_cfg(max_entry=14, nlab=(1, 4), degrees=True, nasty=draw(st.integers(0, 3)) == 0))
    else:
        c = draw(models.clus_cfg(max_entry=10, nlab=(1, 3), degrees=True, single=draw(st.booleans())))
    pool = draw(gen.entries(c["base"], c["entry"], 2, 6))
    ops = []
    kinds = {"disc": ["train"], "wisard": ["train", "train", "forget"], "clus": ["train", "train", "unsup"]}[kind]
    for _ in range(draw(st.integers(2, 9))):
        if draw(st.integers(0, 1)):
            ops.append(["read", draw(st.lists(st.sampled_from(READS), min_size=1, max_size=5)),
                        draw(st.lists(st.integers(0, 40), min_size=1, max_size=4))])
        else:
            ops.append([draw(st.sampled_from(kinds)),
                        draw(gen.pairs(len(pool), len(c["labels"]), 1, 4)), draw(st.sampled_from([1, 1, 1, 3]))])
    if len(pool) < 20 and c["entry"] < 40 and draw(st.integers(0, 39)) == 23:
        # the same reads over and over, then on
        at = [i for i, o in enumerate(ops) if o[0] == "read"]
        if at:
            i = at[draw(st.integers(0, len(at) - 1))]
            ops[i] = ["read", ops[i][1] * draw(st.sampled_from([20, 40, 70, 140, 270])), ops[i][2]]
    return {"kind": kind, "cfg": c, "pool": pool, "ops": ops, "verbose": draw(st.booleans()), "clock": draw(gen.clock),
            "late": draw(st.booleans()), "long": draw(gen.long())}


def view(kind, text):
    """Everything saved, except how it is written."""
    j = json.loads(text)
    if kind == "disc":
        return ref.disc_content(j, True), {k: v for k, v in j.items() if k != "data"}
    if kind == "wisard":
        return ref.wisard_content(text, True), sorted(j)
    return ref.cluswisard_content(text, True), sorted(j)


class PROP:
    ID = "C27"
    BACKENDS = ["py", "py", "py", "py", "src", "src", "hdr", "hdr"]
    QUICK, THOROUGH = 2500, 45000
    QUICK_S = 35
    RULE = ("training histories with random reads in between (classification by list, data set, one by one, of nothing, "
            "unsupervised, with degrees; mental images, also of unknown labels; json, jsonConfig, file-backed saves, "
            "getsizeof; verbose on and off); saved content (stored zero counts included) and answers are compared before and "
            "after each block of reads, and around the first save after each training; a twin that learns the same and is not read (or only saved) until the end must end with the same size, content and answers. "
            "Non-trivial: a block of reads between two trainings of a model with learned content")

    @staticmethod
    def strategy(tier, backend):
        return case()

    @staticmethod
    def run(api, case, s):
        c, pool, labels, kind = case["cfg"], case["pool"], case["cfg"]["labels"], case["kind"]
        s.clock(case["clock"])
        s.event(kind)
        cls = {"disc": api.Discriminator, "wisard": api.Wisard, "clus": api.ClusWisard}[kind]
        more = {"verbose": True} if case["verbose"] and kind != "disc" else {}

        if kind == "disc":
            a = api.Discriminator(c["addr"], c["entry"], **gen.disc_kwargs(c))
            b = cls(a.json())
        elif kind == "wisard":
            a = models.make_wisard(api, c, **more)
            a.train([pool[0]] * len(labels), labels)
            j = json.loads(a.json())
            j["verbose"] = False
            b = cls(json.dumps(j))
        else:
            a = models.make_clus(api, c, **more)
            b = None
        asked = models.neighbours(pool, c["base"], 2)
        trained = read = False
        probe = asked[:6]

        def answers(m):
            if kind == "disc":
                return [list(m.classify(e)) for e in probe]
            r = [m.classify(probe)]
            if kind == "clus":
                r.append(m.classifyUnsupervised(probe))
            return r

        def reading(m, r, at):
            es = [asked[i % len(asked)] for i in at]
            if r == "classify":
                [m.classify(e) for e in es] if kind == "disc" else m.classify(es)
            elif r == "one":
                for e in es:
                    m.classify(e if kind == "disc" else [e])
            elif r == "empty" and kind != "disc":
                m.classify([])
                if kind == "clus":
                    m.classifyUnsupervised([])
            elif r == "dataset" and kind != "clus":
                bits = [e for e in es if models.bits(e)]
                if kind == "disc":
                    for e in bits:
                        m.classify(api.BinInput(e))
                else:
                    ds = api.DataSet()
                    for e in bits:
                        ds.add(e, "zzz")
                    m.classify(ds)
            elif r == "mental" and hasattr(m, "getMentalImages"):
                m.getMentalImages()
            elif r in ("image", "unknown") and hasattr(m, "getMentalImage"):
                if kind == "disc":
                    m.getMentalImage()
                elif r == "image":
                    for l in labels:
                        m.getMentalImage(l)
                else:
                    same(list(m.getMentalImage("never trained")), [], "image of an unknown label")
                    m.getMentalImage("")
            elif r == "json":
                m.json()
                m.json(False)
            elif r == "jsonConfig":
                m.jsonConfig()
            elif r == "files":
                m.json(True, os.path.join(s.tmp(), "r"))
            elif r == "size":
                m.getsizeof()
            elif r == "unsup" and kind == "clus":
                m.classifyUnsupervised(es)
            else:
                m.classify(es[0] if kind == "disc" else es[:1])

        def twins():
            va, vb = view(kind, a.json()), view(kind, b.json())
            if kind == "wisard":
                va[0][0].pop("verbose", None)
                vb[0][0].pop("verbose", None)
            same(va, vb, "content of the model that is read and of the one that is not")

        for op in case["ops"]:
            if op[0] == "read":
                size = a.getsizeof()
                before, ans = view(kind, a.json()), answers(a)
                same(a.getsizeof(), size, "size after json and classify")
                for r in op[1]:
                    reading(a, r, op[2])
                    same(view(kind, a.json()), before, "content after " + r)
                same(a.getsizeof(), size, "size after reading")
                same(answers(a), ans, "answers after reading %r" % op[1])
                read = trained
                continue
            pairs = [(pool[e], labels[l]) for e, l in op[1]] * op[2]
            es, ls = [e for e, _ in pairs], [l for _, l in pairs]
            before = ref.cluswisard_content(a.json()) if kind == "clus" else None
            for m in (a, b):
                if m is None:
                    continue
                if kind == "disc":
                    m.train(es)
                elif op[0] == "unsup":
                    m.trainUnsupervised(es)
                elif op[0] == "forget":
                    m.leaveMoreOut(es, ls)
                else:
                    m.train(es, ls)
            size = a.getsizeof()
            now = view(kind, a.json())
            same(a.getsizeof(), size, "size after the first save")
            same(view(kind, a.json()), now, "content after the first save")
            if kind == "clus":
                after = ref.cluswisard_content(a.json())
                if op[0] == "unsup":
                    check(models.grow(c, before[2], es, after[2])[0], "unsupervised cluster after reads")
                else:
                    for l in set(ls):
                        check(models.grow(c, before[1].get(l), [e for e, x in pairs if x == l], after[1][l])[0],
                              "cluster %r after reads", l)
            elif not case["late"]:
                twins()
            if read:
                s.nontrivial = True
            trained = True
        if kind != "disc" and case["long"]:
            before = view(kind, a.json())
            for f in [a.classify] + ([a.classifyUnsupervised] if kind == "clus" else []):
                if models.ask_long(f, probe, list(f(probe)), case["long"], kind, a.json(), "to a long list"):
                    s.event("hundreds or thousands of questions at once")
            same(view(kind, a.json()), before, "content after many questions")
        if b is not None:
            same(a.getsizeof(), b.getsizeof(), "size of the model that is read and of the one that is not")
            twins()
            same(answers(a), answers(b), "answers of the model that is read and of the one that is not")
        if more:
            s.event("verbose")
