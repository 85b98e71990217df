"""C25 Rejected entries leave no trace."""
import json

from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import check, refused, same

NEG = [-1, -1, -2, -128, -256, -2 ** 31]
OVER = [0, 0, 1, 254, 65536]


@st.composite
def damage(draw, c):
    k = draw(st.sampled_from(["size", "size", "value", "value", "value"]))
    if k == "size":
        return ["size", draw(st.sampled_from([-1, -1, 1, 1, 2, 8, 30, -2, -10 ** 6]))]
    if draw(st.booleans()):
        v = draw(st.sampled_from(NEG))
    else:
        v = min(2 ** 31 - 1, c["base"] + draw(st.sampled_from(OVER + [2 ** 31 - 1])))
        if v < c["base"]:
            v = -1
    p = draw(st.integers(0, c["entry"] - 1))
    if draw(st.booleans()):
        # at a certain place of a RAM's addressing, once it is known
        return ["value", p, v, draw(st.sampled_from([-1, -1, -1, 0, 31, 32]))]
    return ["value", p, v]


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["disc", "wisard", "wisard", "clus", "clus"]))
    if kind == "disc":
        c = draw(gen.config(max_entry=14))
        c["labels"] = ["x"]
    elif kind == "wisard":
        c = draw(models.wisard_cfg(max_entry=14, nlab=(2, 4)))
    else:
        c = draw(models.clus_cfg(max_entry=10, nlab=(1, 3)))
    pool = draw(gen.entries(c["base"], c["entry"], 2, 6))
    ops = []
    kinds = {"disc": ["train", "train", "untrain", "ask"], "wisard": ["train", "train", "train", "forget", "ask"],
             "clus": ["train", "train", "unsup", "semi", "ask"]}[kind]
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.sampled_from(kinds))
        n = draw(st.integers(1, 5)) if len(pool) < 20 else draw(st.integers(1, len(pool)))
        if n > 8:
            items = [p + [None] for p in draw(gen.pairs(len(pool), len(c["labels"])))]
            n = len(items)
        else:
            items = [[draw(st.integers(0, len(pool) - 1)), draw(st.integers(0, len(c["labels"]) - 1)), None]
                     for _ in range(n)]
        if draw(st.integers(0, 2)):
            items[draw(st.integers(0, n - 1))][2] = draw(damage(c))
        ops.append([k, items, draw(st.integers(0, 1000))])
    if len(pool) < 20 and c["entry"] < 40 and draw(st.integers(0, 149)) == 77:
        # the same over and over
        ops = ops[:4] * draw(st.sampled_from([5, 12, 20, 40, 70]))
    return {"kind": kind, "cfg": c, "pool": pool, "ops": ops, "clock": draw(gen.clock)}


def placed(d, mapping):
    """The damage with its position looked up in an addressing (if there is one yet)."""
    if d is None or len(d) < 4:
        return d
    if mapping and all(mapping):
        ram = mapping[d[1] % len(mapping)]
        return [d[0], ram[d[3] % len(ram)], d[2]]
    return d[:3]


def broken(e, d):
    if d is None:
        return list(e)
    if d[0] == "size":
        return list(e) + [0] * d[1] if d[1] > 0 else list(e)[:max(0, len(e) + d[1])]
    f = list(e)
    f[d[1]] = d[2]
    return f


class PROP:
    ID = "C25"
    BACKENDS = ["py", "py", "py", "py", "src", "src", "hdr", "hdr"]
    QUICK, THOROUGH = 2800, 50000
    QUICK_S = 35
    RULE = ("histories of Discriminators, Wisards and ClusWisards in which entries of a wrong size (empty too) or with a "
            "value below 0 or not below the base at an observed position stand alone or inside batches; the call must raise "
            "an ordinary error and the saved content must be that of the reference fed with the accepted entries before it "
            "(for ClusWisard a result the score rule allows), no class appears, later calls work. Non-trivial: a refused "
            "entry inside a batch or history with accepted entries before and after it")
    ASSUMPTIONS = ["a Wisard or ClusWisard class takes the size of its first entry, so a wrong size under a new label is only "
                   "generated where it is below the address size or contradicts the configured indexes"]

    @staticmethod
    def strategy(tier, backend):
        return case()

    @staticmethod
    def run(api, case, s):
        s.clock(case["clock"])
        s.event(case["kind"])
        {"disc": PROP.disc, "wisard": PROP.wisard, "clus": PROP.clus}[case["kind"]](api, case, s)

    # ---- Discriminator --------------------------------------------------------------------------

    @staticmethod
    def disc(api, case, s):
        c, pool = case["cfg"], case["pool"]
        m = api.Discriminator(c["addr"], c["entry"], **gen.disc_kwargs(c))
        mapping = json.loads(m.json())["mapping"]
        seen = {p for ram in mapping for p in ram}
        r = ref.RefDisc(mapping, c["base"], c["ignoreZero"])
        marks = []

        def content(what):
            d = ref.disc_content(json.loads(m.json()))
            same(d["mapping"], mapping, "addressing after " + what)
            same(d["count"], r.count, "number of trainings after " + what)
            same([ref.ram_patterns(x, c["base"], len(mapping[i])) for i, x in enumerate(d["rams"])],
                 [{k: v for k, v in x.items() if v} for x in r.rams], "RAMs after " + what)

        for k, items, pick in case["ops"]:
            items = [[e, l, placed(d, mapping)] for e, l, d in items]
            es = [(broken(pool[e], d), bad(d, seen, c)) for e, _, d in items if d is None or bad(d, seen, c)]
            if not es:
                continue
            wrong = [i for i, (_, b) in enumerate(es) if b]
            good = es[:wrong[0]] if wrong else es
            if k == "train":
                if wrong:
                    if len(es) == 1 and models.bits(es[0][0]) and es[0][0]:
                        check(refused(m.train, api.BinInput(es[0][0])), "packed %r is learned", es[0][0])
                    if len(es) == 1:
                        check(refused(m.train, es[0][0]), "%r is learned", es[0][0])
                    check(refused(m.train, [e for e, _ in es]), "a batch with %r is learned", es[wrong[0]][0])
                    marks.append("r")
                else:
                    m.train([e for e, _ in es])
                    marks.append("a")
                for e, _ in good:
                    r.train(e)
                if good:
                    marks.append("a")
            elif k == "untrain" and hasattr(m, "untrain"):
                for e, b in es:
                    if b:
                        check(refused(m.untrain, e), "%r is forgotten", e)
                        marks.append("r")
                    elif all(ram.get(key, 0) > 0 for ram, key in zip(r.rams, r.keys(e))) and r.count > 0:
                        m.untrain(e)
                        r.untrain(e)
            elif k == "ask":
                for e, b in es:
                    if b:
                        check(refused(m.classify, e), "%r is answered", e)
                        if models.bits(e) and e:
                            check(refused(m.classify, api.BinInput(e)), "packed %r is answered", e)
                    else:
                        same(list(m.classify(e)), r.votes(e), "responses")
            content(k)
            nontrivial(s, marks)
        for e in pool:
            same(list(m.classify(e)), r.votes(e), "responses at the end")

    # ---- Wisard ---------------------------------------------------------------------------------

    @staticmethod
    def wisard(api, case, s):
        c, pool, labels = case["cfg"], case["pool"], case["cfg"]["labels"]
        w = models.make_wisard(api, c)
        rw = models.RefWisard(c, w)
        marks = []

        def wrong(e, l, d):
            """is the entry certainly refused under the label? None: unspecified"""
            if d is None:
                return False
            cls = rw.classes.get(l)
            if cls is not None:
                return bad(d, {p for ram in cls.mapping for p in ram}, c) or None
            if d[0] == "size":
                if len(e) < 2 or (len(e) < c["addr"] and not mapped(l)):
                    return True if not mapped(l) else (True if outside(l, e) else None)
                if mapped(l):
                    return True if outside(l, e) else None
                if c.get("indexes") and c["mode"] in ("indexes", "mapping"):
                    return True
                return None
            if mapped(l):
                return d[1] in {p for ram in c["mapping"][l] for p in ram} or None
            if c.get("indexes") and c["mode"] in ("indexes", "mapping"):
                used = c["indexes"][:c["entry"] // c["addr"] * c["addr"]]
                return d[1] in used or None
            return None if c["mode"] == "incomplete" else True

        def mapped(l):
            return c["mode"] == "mapping" and l in c["mapping"]

        def outside(l, e):
            return any(p >= len(e) for ram in c["mapping"][l] for p in ram)

        for k, items, pick in case["ops"]:
            items = [[e, l, placed(d, rw.classes[labels[l]].mapping if labels[l] in rw.classes else None)] for e, l, d in items]
            if k == "ask":
                for e, _, d in items:
                    x = broken(pool[e], d)
                    if d is None:
                        same(models.out_class(w.classify([x])[0]), rw.classify(x), "class")
                    elif rw.classes and all(bad(d, {p for ram in r.mapping for p in ram}, c) for r in rw.classes.values()):
                        check(refused(w.classify, [x]), "%r is answered", x)
                        check(refused(w.classify, [pool[e], x, pool[e]]), "%r is answered in a batch", x)
                models.compare_content(ref.wisard_content(w.json())[1], rw, "after asking")
                continue
            batch = []
            stop = None
            for e, l, d in items:
                x = broken(pool[e], d)
                if k == "forget":
                    r = rw.classes.get(labels[l])
                    if r is None:
                        bw = False
                    elif d is not None:
                        bw = bad(d, {p for ram in r.mapping for p in ram}, c) or None
                    else:
                        bw = False
                        if not all(ram.get(key, 0) > 0 for ram, key in zip(r.rams, r.keys(x))):
                            continue
                else:
                    bw = wrong(x, labels[l], d)
                    if d is not None and not batch and len(x) // c["addr"] < c["confidence"] and not bw:
                        bw = None
                if bw is None:
                    continue
                batch.append((x, labels[l], d, bw))
                if bw:
                    stop = len(batch) - 1
                    break
                if k == "forget":
                    if r is not None:
                        r.untrain(x)
                else:
                    # learning inside the batch may create the class: the reference needs its addressing
                    batch[-1] = (x, labels[l], d, False)
                    if labels[l] not in rw.classes:
                        # split the batch here so that the new class can be read
                        call(api, w, k, batch, None)
                        rw.train([(b[0], b[1]) for b in batch if b[0] is not None])
                        batch = []
                        marks.append("a")
                    else:
                        pass
            # entries after the refused one must not be learned
            tail = [(broken(pool[e], None), labels[l], None, False) for e, l, d in items[-1:]] if stop is not None else []
            if not batch:
                continue
            packable = k == "train" and pick % 3 == 0 and all(b[1] and models.bits(b[0]) and b[0] for b in batch + tail)
            if stop is not None:
                check(refused(call, api, w, k, batch + tail, packable), "%s with %r under %r is accepted (%s)", k,
                      batch[stop][0], batch[stop][1], "packed" if packable else "list")
                marks.append("r")
                if stop:
                    marks.insert(len(marks) - 1, "a")
            else:
                call(api, w, k, batch, packable)
                marks.append("a")
            if k == "train":
                rw.train([(b[0], b[1]) for b in batch if not b[3]])
            models.compare_content(ref.wisard_content(w.json())[1], rw, "after %s" % k)
            nontrivial(s, marks)
        for e in pool:
            same(models.out_class(w.classify([e])[0]), rw.classify(e), "class at the end")

    # ---- ClusWisard -----------------------------------------------------------------------------

    @staticmethod
    def clus(api, case, s):
        c, pool, labels = case["cfg"], case["pool"], case["cfg"]["labels"]
        m = models.make_clus(api, c)
        marks = []
        for k, items, pick in case["ops"]:
            _, sup, un = ref.cluswisard_content(m.json())
            ds = (sup.get(labels[0]) or {"discriminators": []})["discriminators"]
            items = [[e, l, placed(d, ds[-1]["mapping"] if ds else None)] for e, l, d in items]

            def certain(x, d, cluster):
                if d is None:
                    return False
                if cluster is None or not cluster["discriminators"]:
                    if d[0] == "size":
                        return True if len(x) < c["addr"] else None
                    return True if c["complete"] else None
                every = [{p for ram in q["mapping"] for p in ram} for q in cluster["discriminators"]]
                return True if d[0] == "size" or all(d[1] in z for z in every) else None

            xs = [(broken(pool[e], d), labels[l], d) for e, l, d in items]
            if k == "ask":
                for x, _, d in xs:
                    if sup and d is not None and all(certain(x, d, q) for q in sup.values()):
                        check(refused(m.classify, [x]), "%r is answered", x)
                        check(refused(m.classify, [pool[0], x]), "%r is answered in a batch", x)
                    if un and d is not None and certain(x, d, un):
                        check(refused(m.classifyUnsupervised, [x]), "%r is answered without classes", x)
                same(ref.cluswisard_content(m.json())[1:], (sup, un), "content after asking")
                continue
            if k == "unsup":
                use, stop = [], None
                for x, _, d in xs:
                    b = certain(x, d, un if un else ({"discriminators": []} if not use else None))
                    if d is not None and use and not un:
                        # the cluster exists once the first entry is learned
                        b = True if d[0] == "size" or c["complete"] else None
                    if b is None:
                        continue
                    use.append(x)
                    if b:
                        stop = len(use) - 1
                        break
                if not use:
                    continue
                if stop is not None:
                    check(refused(m.trainUnsupervised, use + [pool[0]]), "%r is learned", use[stop])
                    marks.append("r")
                    if stop:
                        marks.insert(len(marks) - 1, "a")
                    use = use[:stop]
                else:
                    m.trainUnsupervised(use)
                    marks.append("a")
                _, sup2, un2 = ref.cluswisard_content(m.json())
                same(sup2, sup, "classes")
                if not use:
                    same(un2, un, "unsupervised cluster after a refused entry")
                else:
                    check(un2 is not None, "nothing learned")
                    ok, _, _ = models.grow(c, un, use, un2)
                    check(ok, "unsupervised cluster: %r learned %r gives %r", un, use, un2)
                nontrivial(s, marks)
                continue
            semi = k == "semi"
            # a supervised batch (or, semi-supervised, all entries labelled): learned in order up to the refused one
            use, stop, fresh = [], None, set()
            for x, l, d in xs:
                b = certain(x, d, sup.get(l))
                if d is not None and l in fresh:
                    b = True if d[0] == "size" or c["complete"] else None
                if d is not None and b is False:
                    b = None
                if b is None:
                    continue
                if b and not use and d[0] == "size" and len(x) < c["addr"] * c["confidence"]:
                    pass    # refused either way
                use.append((x, l))
                if b:
                    stop = len(use) - 1
                    break
                fresh.add(l)
            if not use:
                continue
            tail = [(pool[0], use[0][1])] if stop is not None else []
            call_x, call_l = [x for x, _ in use + tail], [l for _, l in use + tail]
            args = (call_x, {i: l for i, l in enumerate(call_l)}) if semi else (call_x, call_l)
            if stop is not None:
                check(refused(m.train, *args), "%r under %r is learned", use[stop][0], use[stop][1])
                marks.append("r")
                if stop:
                    marks.insert(len(marks) - 1, "a")
                use = use[:stop]
            else:
                m.train(*args)
                marks.append("a")
            _, sup2, un2 = ref.cluswisard_content(m.json())
            same(un2, un, "unsupervised cluster")
            todo = {}
            for x, l in use:
                todo.setdefault(l, []).append(x)
            same(sorted(sup2), sorted(set(sup) | set(todo)), "classes after %s" % k)
            for l in sup2:
                if l not in todo:
                    same(sup2[l], sup[l], "cluster %r" % l)
                else:
                    ok, _, _ = models.grow(c, sup.get(l), todo[l], sup2[l])
                    check(ok, "cluster %r: %r learned %r gives %r", l, sup.get(l), todo[l], sup2[l])
            # an unlabelled entry that cannot be classified
            if semi and sup2 and pick % 2 and all(d["mapping"] for q in sup2.values() for d in q["discriminators"]):
                x = pool[0] + [0]
                check(refused(m.train, [pool[1], x], {0: labels[0]}), "an unlabelled entry of size %d is learned", len(x))
                _, sup3, un3 = ref.cluswisard_content(m.json())
                same(un3, un, "unsupervised cluster")
                same(sorted(sup3), sorted(set(sup2) | {labels[0]}), "classes after a refused unlabelled entry")
                ok, _, _ = models.grow(c, sup2.get(labels[0]), [pool[1]], sup3[labels[0]])
                check(ok, "cluster %r after a refused unlabelled entry", labels[0])
                for l in sup2:
                    if l != labels[0]:
                        same(sup3[l], sup2[l], "cluster %r after a refused unlabelled entry" % l)
                s.event("refused unlabelled")
            nontrivial(s, marks)
        m.classify(pool)


def bad(d, seen, c):
    """Is the entry refused by a discriminator that observes these positions?"""
    if d is None:
        return False
    return d[0] == "size" or d[1] in seen


def call(api, w, k, batch, packed):
    if k == "forget":
        w.leaveMoreOut([b[0] for b in batch], [b[1] for b in batch])
    elif packed:
        ds = api.DataSet()
        for b in batch:
            ds.add(api.BinInput(b[0]), b[1])
        w.train(ds)
    else:
        w.train([b[0] for b in batch], [b[1] for b in batch])


def nontrivial(s, marks):
    for i, k in enumerate(marks):
        if k == "r" and "a" in marks[:i] and "a" in marks[i + 1:]:
            s.nontrivial = True
    if marks and marks[-1] == "r":
        s.event("refused")
