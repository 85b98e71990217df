"""C28 Models are independent of one another."""
import json
import os

from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import check, refused, same

KINDS = ["disc", "wisard", "wisard", "clus", "clus", "dataset", "bin", "handle", "canvas"]
HOWS = ["fresh", "load", "load", "file", "copy", "copy", "assign", "self"]


@st.composite
def group(draw):
    kind = draw(st.sampled_from(KINDS))
    g = {"kind": kind}
    if kind == "disc":
        c = draw(gen.config(max_entry=12))
        c["labels"] = ["x"]
    elif kind == "wisard":
        c = draw(models.wisard_cfg(max_entry=12, nlab=(1, 3)))
    elif kind == "clus":
        c = draw(models.clus_cfg(max_entry=9, nlab=(1, 3)))
    else:
        c = {"base": 2, "entry": draw(st.integers(1, 20)), "labels": ["a", "b"]}
    g["cfg"] = c
    g["pool"] = draw(gen.entries(c["base"], c["entry"], 2, 4))
    g["start"] = draw(st.lists(pair(g), max_size=5))
    return g


@st.composite
def relative(draw, g):
    """A family of the same kind and shape that differs from g in a few options."""
    h = json.loads(json.dumps(g))
    c = h["cfg"]
    if "addr" in c:
        longest = max([c["addr"]] + [len(r) for m in rows(c) for r in m])
        top = [b for b in (2, 3, 4, 5, 16, 256, 257, 258, 259, 65538, c["base"] + 1, c["base"] + 256)
               if gen.max_addr(b) >= longest and b <= 65538]
        if top and draw(st.integers(0, 3)):
            c["base"] = draw(st.sampled_from(top))
        if draw(st.integers(0, 2)) == 0:
            c["ignoreZero"] = not c["ignoreZero"]
        if g["kind"] != "disc":
            if draw(st.integers(0, 2)) == 0:
                c["bleachingActivated"] = not c["bleachingActivated"]
            c["confidence"] = draw(st.integers(1, models.max_conf(c)))
        if g["kind"] == "clus":
            c["minScore"] = draw(st.sampled_from(models.MIN_SCORES))
            c["limit"] = draw(st.integers(1, 5))
            c["threshold"] = draw(st.sampled_from(models.THRESHOLDS))
        if draw(st.integers(0, 2)) == 0:
            c["labels"] = c["labels"][::-1]
        if draw(st.integers(0, 1)):
            h["pool"] = draw(gen.entries(c["base"], c["entry"], 2, 4))
        else:
            h["pool"] = [[v % c["base"] for v in e] for e in h["pool"]]
    h["start"] = draw(st.lists(pair(h), max_size=5))
    return h


def rows(c):
    m = c.get("mapping") or []
    return list(m.values()) if isinstance(m, dict) else [m]


def pair(g):
    return st.tuples(st.integers(0, len(g["pool"]) - 1), st.integers(0, len(g["cfg"]["labels"]) - 1)).map(list)


@st.composite
def case(draw):
    groups = [draw(group())]
    how = draw(st.sampled_from(["one", "one", "two", "relative", "relative"]))
    if how != "one":
        groups.append(draw(group() if how == "two" else relative(groups[0])))
    ops = []
    for _ in range(draw(st.integers(3, 14))):
        k = draw(st.sampled_from(["make", "make", "learn", "learn", "learn", "learn", "other", "read", "drop", "noise"]))
        gi = draw(st.integers(0, len(groups) - 1))
        if k == "make":
            ops.append([k, gi, draw(st.sampled_from(HOWS)), draw(st.integers(0, 9)), draw(st.integers(0, 9))])
        elif k in ("learn", "other"):
            ops.append([k, gi, draw(st.integers(0, 9)), draw(st.lists(pair(groups[gi]), min_size=1, max_size=3)),
                        draw(st.integers(0, 63))])
        else:
            ops.append([k, gi, draw(st.integers(0, 9))])
    if draw(st.integers(0, 79)) == 41:
        # many objects, or many changes of a few
        k = draw(st.sampled_from([3, 8, 20, 40]))
        ops = [o for o in ops if o[0] != "drop"][:5] * k
    return {"groups": groups, "ops": ops, "clock": draw(gen.clock), "tick": draw(st.sampled_from([0, 0, 1]))}


class Group:
    """A configuration with the objects that share it."""

    def __init__(self, api, g, root, number):
        self.api, self.kind, self.c, self.pool = api, g["kind"], g["cfg"], g["pool"]
        self.g, self.root, self.number = g, root, number
        self.objs = []
        self.saves = 0
        self.asked = models.neighbours(self.pool, self.c["base"], 1)[:8]

    def entry(self, i):
        return self.pool[i % len(self.pool)]

    def label(self, i):
        return self.c["labels"][i % len(self.c["labels"])]

    def fresh(self):
        a, c, k = self.api, self.c, self.kind
        if k == "disc":
            kw = gen.disc_kwargs(c)
            kw = json.loads(json.dumps(kw))
            o = a.Discriminator(c["addr"], c["entry"], **kw)
            spoil(kw)
        elif k == "wisard":
            kw = json.loads(json.dumps(models.wisard_kwargs(c)))
            o = a.Wisard(c["addr"], **kw)
            spoil(kw)
        elif k == "clus":
            o = models.make_clus(a, c)
        elif k == "dataset":
            o = a.DataSet()
        elif k == "bin":
            o = a.BinInput(list(self.pool[0]))
        elif k == "handle":
            o = a.RAMDataHandle(".".join(ref.encode_ram({i: v for i, v in enumerate(e) if v}) for e in self.pool))
        else:
            o = a.KernelCanvas(2, 6, bitsByKernel=2)
        self.learn(o, [self.g["start"]], 0)
        return o

    def loaded(self, o, files):
        a, k = self.api, self.kind
        p = os.path.join(self.root, "g%d_%d" % (self.number, self.saves))
        self.saves += 1
        if k in ("disc", "wisard", "clus"):
            cls = {"disc": a.Discriminator, "wisard": a.Wisard, "clus": a.ClusWisard}[k]
            t = o.json(True, p) if files else o.json()
            return cls(t), cls(t)
        if k == "dataset":
            o.save(p)
            return a.DataSet(p + ".wpkds"), a.DataSet(p + ".wpkds")
        if k == "bin":
            return a.BinInput(o.data()), a.BinInput(o.data())
        if k == "handle":
            if files:
                with open(p + ".wdpkg", "w") as fh:
                    fh.write(o.data())
                return a.RAMDataHandle(p + ".wdpkg"), a.RAMDataHandle(p + ".wdpkg")
            return a.RAMDataHandle(o.data()), a.RAMDataHandle(o.data())
        return None

    def learn(self, o, ops, n):
        """A change of o. Returns False if there is none for this kind."""
        k = self.kind
        for pairs in ops:
            if not pairs:
                continue
            es = [self.entry(e) for e, _ in pairs]
            ls = [self.label(l) for _, l in pairs]
            if k == "disc":
                o.train(es)
            elif k in ("wisard", "clus"):
                o.train(es, ls)
            elif k == "dataset":
                for i, (e, l) in enumerate(zip(es, ls)):
                    if (n + i) % 3 == 0:
                        o.add(e)
                    elif (n + i) % 3 == 1:
                        o.add(e, l)
                    else:
                        b = self.api.BinInput(e)
                        o.add(b, l)
                        for q in range(b.size()):
                            b.set(q, 1 - b.get(q))
                    # what was given and what get returned belongs to the caller
                    at = o.size() - 1
                    for b in [o.get(at)] + ([o[at]] if hasattr(o, "__getitem__") else []):
                        for q in range(b.size()):
                            b.set(q, 1 - b.get(q))
                        same([o.get(at).get(q) for q in range(len(e))], list(e), "entry %d of a data set whose copy was "
                             "changed" % at)
            elif k == "bin":
                for e, l in pairs:
                    i = (e * 5 + l + n) % o.size()
                    o.set(i, 1 - o.get(i))
            elif k == "handle":
                for e, l in pairs:
                    o.set(e % len(self.pool), l + n, e + n + 1)
                    r = o.get(e % len(self.pool))
                    want = dict(r)
                    r[l] = 12345
                    same(dict(o.get(e % len(self.pool))), want, "RAM of a handle whose copy was changed")
            else:
                return False
        return True

    def other(self, o, pairs, n):
        k = self.kind
        es = [self.entry(e) for e, _ in pairs]
        ls = [self.label(l) for _, l in pairs]
        if k == "wisard":
            if n % 3:
                o.leaveMoreOut(es, ls)
            else:
                check(refused(o.train, [[]], ls[:1]), "an empty entry is accepted")
        elif k == "clus":
            if n % 2:
                o.trainUnsupervised(es)
            else:
                o.train(es, {0: ls[0]})
        elif k == "disc" and hasattr(o, "untrain"):
            o.untrain(es[0])
        elif k == "canvas":
            o.transform([[float(n), 1.5], [2.0, float(n % 5)], [0.25, -3.0]])
        else:
            return self.learn(o, [pairs], n)
        return True

    def read(self, o):
        k = self.kind
        if k in ("wisard", "clus"):
            o.classify(self.asked)
            o.getMentalImages()
            o.jsonConfig()
            o.json(True, os.path.join(self.root, "read"))
            if k == "clus":
                o.classifyUnsupervised(self.asked)
        elif k == "disc":
            [o.classify(e) for e in self.asked]
            if hasattr(o, "getMentalImage"):
                o.getMentalImage()
            o.json()
        elif k == "handle":
            o.data()
            o.compare(self.api.RAMDataHandle(o.data()))

    def decided(self, e, got, votes):
        """The answer is one of the classes with the most votes at the threshold."""
        counts, _ = ref.bleach_fast(votes, self.c["bleachingActivated"], self.c["confidence"])
        if not counts:
            return
        m = max(counts.values())
        best = {k[0] if isinstance(k, tuple) else k for k in counts if counts[k] == m}
        check(got in best, "%r is answered, the content says %r", got, sorted(best))

    def view(self, o):
        k = self.kind
        if k == "disc":
            v = [ref.disc_content(json.loads(o.json())), [list(o.classify(e)) for e in self.asked],
                 list(o.getMentalImage()) if hasattr(o, "getMentalImage") else None,
                 o.getsizeof() if hasattr(o, "getsizeof") else None]
            r = models.ref_of(self.c, v[0])
            same(v[1], [r.votes(e) for e in self.asked], "responses against the content")
            if v[2] is not None:
                same(v[2], r.mental(self.c["entry"]), "mental image against the content")
            return v
        if k == "wisard":
            v = [ref.wisard_content(o.json()), o.classify(self.asked), o.getMentalImages(), o.getsizeof()]
            rs = {l: models.ref_of(self.c, d) for l, d in v[0][1].items()}
            same(v[2], {l: r.mental(self.c["entry"]) for l, r in rs.items()}, "mental images against the content")
            for e, got in zip(self.asked, v[1]):
                self.decided(e, got, {l: r.votes(e) for l, r in rs.items()})
            return v
        if k == "clus":
            v = [ref.cluswisard_content(o.json()), o.classify(self.asked), o.classifyUnsupervised(self.asked),
                 o.getMentalImages(), o.getsizeof()]
            rs = {l: [models.ref_of(self.c, d) for d in cl["discriminators"]] for l, cl in v[0][1].items()}
            same(v[3], {l: [r.mental(self.c["entry"]) for r in x] for l, x in rs.items()},
                 "mental images against the content")
            for e, got in zip(self.asked, v[1]):
                self.decided(e, got, {(l, i): r.votes(e) for l, x in rs.items() for i, r in enumerate(x)})
            return v
        if k == "dataset":
            out = []
            for i in range(o.size()):
                b = o.get(i)
                try:
                    l = o.getLabel(i)
                except (IndexError, RuntimeError, ValueError):
                    l = None
                out.append(([b.get(q) for q in range(b.size())], l))
            return out
        if k == "bin":
            return [o.get(i) for i in range(o.size())]
        if k == "handle":
            return [ref.nonzero(dict(o.get(r))) for r in range(len(self.pool))]
        return list(o.transform([[0.0, 1.0], [2.0, 2.5], [7.0, -3.0]]))


def spoil(kw):
    """The caller's lists belong to the caller."""
    if "indexes" in kw:
        kw["indexes"].reverse()
    m = kw.get("mapping")
    if m:
        for ms in (m.values() if isinstance(m, dict) else [m]):
            for r in ms:
                r[:] = [0] * len(r)


class PROP:
    ID = "C28"
    BACKENDS = ["py", "py", "py", "src", "src", "hdr", "hdr", "hdr"]
    QUICK, THOROUGH = 1800, 40000
    QUICK_S = 35
    RULE = ("one or two families of objects (Discriminators, Wisards, ClusWisards, DataSets, BinInputs, RAMDataHandles, "
            "KernelCanvases) whose members are created separately, loaded in pairs from the same string or file, copied, "
            "assigned or assigned to themselves (C++); random learning, forgetting, editing, reading and destruction of "
            "one of them, up to dozens of times in a row; after every step the content and answers of all the others must be what they were, a copy must "
            "equal its source, responses, answers and mental images must follow from the object's own saved content; the "
            "second family is independent of the first or differs from it in a few options (base, ignoreZero, bleaching, "
            "confidence, labels, cluster parameters); and at the end a twin rebuilt from the starting content that runs "
            "the operations of one object alone must agree with it. Non-trivial: one of at least two objects of a shared "
            "origin was changed")
    ASSUMPTIONS = ["destruction is exercised by dropping the only reference of the Python wrapper"]

    @staticmethod
    def strategy(tier, backend):
        return case()

    @staticmethod
    def run(api, case, s):
        clock = case["clock"]
        s.clock(clock)
        root = s.tmp()
        groups = [Group(api, g, root, i) for i, g in enumerate(case["groups"])]
        live = []      # [group, object, view, shared, birth text, log]

        def born(g, o, shared):
            live.append({"g": g, "o": o, "view": g.view(o), "shared": shared, "log": [],
                         "birth": o.json() if g.kind in ("disc", "wisard") else None})

        def others(but, what, seldom=[0]):
            seldom[0] += 1
            for i, e in enumerate(live):
                # of very many objects, some after every step
                if e is not but and (len(live) < 25 or (i + seldom[0]) % (len(live) // 6) == 0):
                    same(e["g"].view(e["o"]), e["view"], "another %s after %s" % (e["g"].kind, what))

        for g in groups:
            born(g, g.fresh(), False)
            others(live[-1], "creating a %s" % g.kind)
        for op in case["ops"]:
            clock += case["tick"]
            s.clock(clock)
            g = groups[op[1]]
            mine = [e for e in live if e["g"] is g]
            k = op[0]
            if k == "make":
                how = op[2]
                src = mine[op[3] % len(mine)] if mine else None
                n = len(live)
                if src is None or how == "fresh":
                    born(g, g.fresh(), False)
                elif how in ("load", "file"):
                    two = g.loaded(src["o"], how == "file")
                    if two is None:
                        continue
                    for o in two:
                        born(g, o, True)
                    src["shared"] = True
                elif hasattr(src["o"], "copy") and (how == "copy" or hasattr(src["o"], "assign")):
                    src["shared"] = True
                    if how == "copy":
                        born(g, src["o"].copy(), True)
                    else:
                        dst = src if how == "self" else mine[op[4] % len(mine)]
                        dst["o"].assign(src["o"])
                        dst["view"] = g.view(dst["o"])
                        same(dst["view"], src["view"], "a %s assigned from another" % g.kind)
                        dst.update(shared=True, log=[], birth=dst["o"].json() if dst["birth"] else None)
                        s.event("assigned to itself" if dst is src else "assigned")
                    s.event("copied")
                else:
                    born(g, g.fresh(), False)
                for e in live[n:]:
                    if e["shared"]:
                        same(e["view"], src["view"], "%s of a %s" % (how, g.kind))
                others(None, "making a %s (%s)" % (g.kind, how))
                continue
            if not mine:
                continue
            e = mine[op[2] % len(mine)]
            if k in ("learn", "other"):
                changed = g.learn(e["o"], [op[3]], op[4]) if k == "learn" else g.other(e["o"], op[3], op[4])
                if changed is False:
                    continue
                e["log"].append([k, op[3], op[4]])
                e["view"] = g.view(e["o"])
                others(e, "changing one")
                if e["shared"] and len(mine) > 1:
                    s.nontrivial = True
                    s.event("changed a shared " + g.kind)
            elif k == "read":
                g.read(e["o"])
                others(None, "reading one")
            elif k == "drop":
                if len(live) > 1:
                    live.remove(e)
                    e.clear()
                    del mine
                    e = None
                    others(None, "destroying one")
            else:
                n = op[2]
                api.Synthesizer([0, 3, n]).make()
                api.KernelCanvas(3, 4).transform([[1.0, 2.0, 3.0 + n], [0.5, 1.0, 2.0]])
                w = api.Wisard(2, ignoreZero=True, base=3)
                w.train([[0, 1, 2, 0]], ["a"])
                w.json()
                refused(api.Wisard, "{")
                others(None, "using others")
        if len(live) >= 25:
            s.event("dozens of objects")
            for e in live:
                same(e["g"].view(e["o"]), e["view"], "a %s at the end" % e["g"].kind)
        # each one alone
        for e in live:
            g = e["g"]
            if e["birth"] and e["log"] and set(e["view"][0][1] if g.kind == "wisard" else "x") <= \
                    set((json.loads(e["birth"])["classes"] or {}) if g.kind == "wisard" else "x"):
                t = {"disc": api.Discriminator, "wisard": api.Wisard}[g.kind](e["birth"])
                for k, pairs, n in e["log"]:
                    g.learn(t, [pairs], n) if k == "learn" else g.other(t, pairs, n)
                same(g.view(t), e["view"], "the same operations alone")
                s.event("alone")
