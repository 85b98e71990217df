"""C04 Class labels are opaque strings."""
import json
import os

from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import check, same


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["wisard", "clus", "dataset"]))
    labs = draw(gen.labels(1, 5, deep=True))
    other = draw(gen.labels(5, 6))
    if kind == "dataset":
        return {"kind": kind, "labels": labs, "order": draw(st.lists(st.integers(0, len(labs) - 1), max_size=8)),
                "n": draw(st.integers(0, 20))}
    if kind == "wisard":
        c = draw(models.wisard_cfg(nlab=(1, 1), bases=False, wide=False,
                                   modes=("random", "indexes", "incomplete")))
        c["labels"] = labs
    else:
        c = draw(models.clus_cfg(bases=False, wide=False))
        c["labels"] = labs
    pool = draw(gen.entries(2, c["entry"], 2, 6))
    c["returnClassesDegrees"] = draw(st.booleans())
    ops = draw(models.history(len(pool), len(labs), ("train",), 1, 5, st.integers(1, 4)))
    return {"kind": kind, "cfg": c, "pool": pool, "ops": ops, "other": other, "clock": draw(gen.clock), "single": draw(models.single())}


def odd(labels):
    return any(any(ch in l for ch in ":.#_/\\\"\x00") or not l or not l.isascii() for l in labels)


class PROP:
    ID = "C04"
    BACKENDS = ["py", "py", "py", "py", "py", "src", "hdr", "hdr"]
    QUICK, THOROUGH = 2500, 40000
    QUICK_S = 35
    RULE = ("labels from adversarial alphabets (separators of the library's own formats, empty, NUL, quotes, non-ASCII, "
            "prefixes of one another); Wisard, ClusWisard and DataSet histories; labels returned by classify, mental "
            "images, degrees, data sets, in-memory and file-backed saves must be the trained ones, and renaming the "
            "classes of a saved model renames its answers. Non-trivial: at least two labels, one of them containing a "
            "separator, NUL, quote, non-ASCII character or nothing at all")

    @staticmethod
    def strategy(tier, backend):
        return case()

    @staticmethod
    def run(api, case, s):
        api = models.calls(api, case, s)
        s.event(case["kind"])
        if case["kind"] == "dataset":
            return PROP.dataset(api, case, s)
        c, pool, labels = case["cfg"], case["pool"], case["cfg"]["labels"]
        s.clock(case["clock"])
        clus = case["kind"] == "clus"
        w = (models.make_clus if clus else models.make_wisard)(api, c)
        trained = set()
        rw = None if clus else models.RefWisard(c, w)
        for op in case["ops"]:
            pairs = models.train_pairs(op, pool, labels)
            w.train([p[0] for p in pairs], [p[1] for p in pairs])
            trained |= {p[1] for p in pairs}
            if rw:
                rw.train(pairs)
        s.nontrivial = len(trained) > 1 and odd(trained)
        same(sorted(w.getMentalImages()), sorted(trained), "labels of the mental images")
        text = w.json()
        asked = models.neighbours(pool, 2, 2)

        def accept(model_text):
            """acceptable classes per entry, computed from the saved content"""
            out = []
            if clus:
                refs, _ = models.clus_refs(c, model_text)
                for e in asked:
                    counts, _, ok = models.clus_decide(refs, e, c)
                    m = max(counts.values())
                    out.append((ok, len({k[0] for k in counts if counts[k] == m}) > 1))
            else:
                for e in asked:
                    counts, _ = rw.decide(e)
                    out.append(({ref.winner(counts)}, len(ref.winners(counts)) > 1))
            return out

        acc = accept(text)
        outs = list(w.classify(asked))
        got = [models.out_class(o) for o in outs]
        for o in outs:
            if isinstance(o, dict) and "classesDegrees" in o:
                for d in o["classesDegrees"]:
                    check(d["class"] in trained, "class %r among the degrees was never trained", d["class"])
                s.event("degrees")
        for g, (ok, _), e in zip(got, acc, asked):
            check(g in trained, "class %r was never trained", g)
            check(g in ok, "class of %r is %r, expected one of %r", e, g, sorted(ok))
        if clus:
            for l in trained:
                check(len(w.getMentalImage(l)) >= 1, "no mental image of %r", l)

        # saved and loaded, in memory and in files
        load = api.ClusWisard if clus else api.Wisard
        r = load(text)
        same(sorted(r.getMentalImages()), sorted(trained), "labels after a reload")
        same([models.out_class(o) for o in r.classify(asked)], got, "classes after a reload")
        f = load(w.json(True, os.path.join(s.tmp(), "m_")))
        same(sorted(f.getMentalImages()), sorted(trained), "labels after a file-backed reload")
        same([models.out_class(o) for o in f.classify(asked)], got, "classes after a file-backed reload")
        if any(len(l.encode()) > 240 for l in trained):
            s.event("label longer than a file name")

        # renaming: the same model with other class names
        other = case["other"] + ["%d::%d" % (i, i) for i in range(len(labels))]
        ren = dict(zip(labels, dict.fromkeys(other)))
        j = json.loads(text)
        key = "clusters" if clus else "classes"
        j[key] = {ren[l]: d for l, d in j[key].items()}
        m = load(json.dumps(j, ensure_ascii=bool(case["clock"] % 2)))
        got2 = [models.out_class(o) for o in m.classify(asked)]
        for g, g2, (_, tie), e in zip(got, got2, acc, asked):
            if not tie:
                same(g2, ren[g], "class of %r after renaming %r to %r" % (e, g, ren[g]))
                s.event("renamed")
        img, img2 = w.getMentalImages(), m.getMentalImages()
        for l in trained:
            same(img2.get(ren[l]), img[l], "mental image after renaming %r to %r" % (l, ren[l]))

    @staticmethod
    def dataset(api, case, s):
        labels = [case["labels"][i] for i in case["order"]]
        ds = api.DataSet()
        e = [i % 2 for i in range(case["n"])]
        for i, l in enumerate(labels):
            if i % 2:
                ds.add(e, l)
            else:
                ds.add(api.BinInput(e), l)

        def get(d, i):
            try:
                return d.getLabel(i)
            except (IndexError, RuntimeError):
                return ""
        same([get(ds, i) for i in range(ds.size())], labels, "labels of the data set")
        p = os.path.join(s.tmp(), "d")
        ds.save(p)
        b = api.DataSet(p + ".wpkds")
        same([get(b, i) for i in range(b.size())], labels, "labels of the loaded data set")
        s.nontrivial = len(set(labels)) > 1 and odd(labels)
