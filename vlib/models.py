"""Generators, builders and reference runs of whole models, shared by the property modules."""
import json
import random
from collections import Counter

from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import check, same

# ---- Wisard -------------------------------------------------------------------------------------


@st.composite
def wisard_cfg(draw, wide=True, bases=True, nasty=None, modes=("random", "random", "incomplete", "indexes", "mapping"),
               nlab=(1, 4), conf=True, degrees=False, max_entry=24):
    c = draw(gen.config(wide, bases, modes, max_entry))
    labs = draw(gen.labels(nlab[0], nlab[1], gen.rarely(draw, 4) if nasty is None else nasty))
    c["labels"] = labs
    if c["mode"] == "mapping":
        # per class; RAM counts may not differ from what the confidence check assumes, so keep the address size
        k = draw(st.integers(0, len(labs)))
        rams = -(-c["entry"] // c["addr"])
        maps = {}
        r = gen.rng(draw) if c["entry"] > 70 or len(labs) > 8 else None
        for l in labs[:k]:
            if r:
                maps[l] = [[r.randrange(c["entry"]) for _ in range(c["addr"])] for _ in range(rams)]
                continue
            if draw(st.integers(0, 2)):
                sizes = [c["addr"]] * rams
            else:
                sizes = draw(st.lists(st.integers(1, min(gen.max_addr(c["base"]), 6)), min_size=rams,
                                      max_size=rams + 2))
            maps[l] = [[draw(st.integers(0, c["entry"] - 1)) for _ in range(z)] for z in sizes]
        c["mapping"] = maps
        if draw(st.booleans()):
            c["indexes"] = list(draw(gen.permutation(c["entry"])))
    c["bleachingActivated"] = draw(st.integers(0, 5)) != 0
    c["confidence"] = draw(st.integers(1, max_conf(c))) if conf and draw(st.integers(0, 1)) else 1
    if degrees:
        for k in ("returnConfidence", "returnActivationDegree", "returnClassesDegrees"):
            c[k] = draw(st.booleans())
    return c


def max_conf(c):
    """The confidence is limited by the number of RAMs (the smaller of the formula and the real addressing)."""
    n, a = c["entry"], c["addr"]
    return max(1, n // a)


def wisard_kwargs(c, drop=()):
    kw = gen.disc_kwargs(dict(c, mode="random"))
    if c["mode"] == "incomplete":
        kw["completeAddressing"] = False
    if c["mode"] in ("indexes", "mapping") and c.get("indexes"):
        kw["indexes"] = c["indexes"]
    if c["mode"] == "mapping":
        kw["mapping"] = c["mapping"]
    if not c.get("bleachingActivated", True):
        kw["bleachingActivated"] = False
    if c.get("confidence", 1) != 1:
        kw["confidence"] = c["confidence"]
    for k in ("returnConfidence", "returnActivationDegree", "returnClassesDegrees", "verbose"):
        if c.get(k):
            kw[k] = True
    for k in drop:
        kw.pop(k, None)
    return kw


def make_wisard(api, c, **more):
    kw = wisard_kwargs(c)
    kw.update(more)
    return api.Wisard(c["addr"], **kw)


@st.composite
def history(draw, n_pool, n_labels, kinds=("train",), lo=1, hi=7, tm=gen.times, batch=5):
    """Operations: ["train", [[entry index, label index], ...]] and ["many", entry, label, times] plus other kinds."""
    ops = []
    pair = st.tuples(st.integers(0, n_pool - 1), st.integers(0, n_labels - 1)).map(list)
    for _ in range(draw(st.integers(lo, hi))):
        k = draw(st.sampled_from(list(kinds)))
        if k == "train":
            if gen.middle(draw, 300):
                r = gen.rng(draw)
                ops.append(["train", [[r.randrange(n_pool), r.randrange(n_labels)] for _ in range(r.choice(gen.LONG))]])
            elif n_pool > 20 and draw(st.integers(0, 1)):
                a, b = draw(st.integers(0, n_labels - 1)), draw(st.integers(0, n_labels))
                ops.append(["train", [[i, (a + i * b) % n_labels] for i in range(n_pool)]])
            elif n_labels > 8 and draw(st.integers(0, 1)):
                r = gen.rng(draw)
                ops.append(["train", [[r.randrange(n_pool), i] for i in range(n_labels)]])
            elif draw(st.integers(0, 2)) == 0:
                p = draw(pair)
                ops.append(["many", p[0], p[1], draw(tm)])
            else:
                ops.append(["train", draw(st.lists(pair, min_size=1, max_size=batch))])
        elif k == "reads":
            ops.append(["reads", draw(st.lists(st.integers(0, n_pool - 1), min_size=1, max_size=3))])
        else:
            ops.append([k])
    return ops


def bits(e):
    return all(v in (0, 1) for v in e)


def train_pairs(ops, pool, labels):
    """The (entry, label) pairs of one training operation."""
    if ops[0] == "many":
        return [(pool[ops[1]], labels[ops[2]])] * ops[3]
    return [(pool[i], labels[l]) for i, l in ops[1]]


def ask_long(f, es, want, n, kind, text, what):
    """Many questions at once: the answers to es, over and over."""
    if not n or not es:
        return False
    # bleaching takes time linear in the counts
    slots, top = 1, 1
    for d in saved_discs(kind, json.loads(text)):
        slots += len(d["mapping"])
        top = max([top] + [v for ram in ref.decode_data(d["data"], len(d["mapping"])) for v in ram.values()])
    n = min(n, 3 * 10 ** 7 // (slots * min(top, 10 ** 5) + 40 * len(es[0])))
    if n < 100:
        return False
    got = list(f([es[i % len(es)] for i in range(n)]))
    same(len(got), n, "number of answers " + what)
    for i, g in enumerate(got):
        if g != want[i % len(es)]:
            same(g, want[i % len(es)], "answer %d of %d %s" % (i, n, what))
    return True


def dataset(api, pairs):
    ds = api.DataSet()
    for e, l in pairs:
        if l is None or l == "":
            ds.add(api.BinInput(e))
        else:
            ds.add(e, l)
    return ds


class RefWisard:
    """Reference Wisard; takes the addressing of a class from the model the first time the class appears."""

    def __init__(self, c, model):
        self.c = c
        self.model = model
        self.classes = {}
        self.maps = {}

    def refresh(self):
        j = json.loads(self.model.json())
        for l, d in (j.get("classes") or {}).items():
            if l not in self.maps:
                self.maps[l] = d["mapping"]

    def cls(self, l):
        if l not in self.classes:
            if l not in self.maps:
                self.refresh()
            check(l in self.maps, "class %r does not exist after it was trained", l)
            self.classes[l] = ref.RefDisc(self.maps[l], self.c["base"], self.c["ignoreZero"])
        return self.classes[l]

    def train(self, pairs):
        for e, l in pairs:
            self.cls(l).train(e)

    def untrain(self, pairs):
        for e, l in pairs:
            if l in self.classes:
                self.classes[l].untrain(e)

    def inflate(self, cls, op, asks):
        """Replaces the model by one with larger counts; returns it."""
        text = inflate("wisard", self.model.json(), op, asks)
        for l, d in ref.wisard_content(text)[1].items():
            self.classes[l] = ref_of(self.c, d)
        self.model = cls(text)
        return self.model

    def votes(self, e):
        return {l: d.votes(e) for l, d in self.classes.items()}

    def decide(self, e):
        return ref.bleach_fast(self.votes(e), self.c.get("bleachingActivated", True), self.c.get("confidence", 1))

    def classify(self, e):
        return ref.winner(self.decide(e)[0])

    def mental(self):
        return {l: d.mental(self.c["entry"]) for l, d in self.classes.items()}


def out_class(o):
    """Class of one classify output (a string, or a dictionary with degrees)."""
    return o["class"] if isinstance(o, dict) else o


def neighbours(pool, base, limit=4):
    """The pool and entries at distance one of it."""
    out = [list(e) for e in pool]
    for i, e in enumerate(pool[:30]):
        for k in range(limit):
            f = list(e)
            p = (i * 7 + k * 5) % len(e)
            f[p] = (f[p] + 1) % base
            out.append(f)
    if pool:
        out.append([0] * len(pool[0]))
        out.append([base - 1] * len(pool[0]))
    return out


def compare_content(classes, rw, what):
    """Saved classes of a Wisard against the reference, counter by counter."""
    same(sorted(classes), sorted(rw.classes), what + ": classes")
    for l, d in classes.items():
        r = rw.classes[l]
        same(d["mapping"], r.mapping, what + ": addressing of %r" % l)
        same(d["count"], r.count, what + ": number of trainings of %r" % l)
        for i, ram in enumerate(d["rams"]):
            got = ref.ram_patterns(ram, rw.c["base"], len(r.mapping[i]))
            want = {k: v for k, v in r.rams[i].items() if v}
            same(got, want, what + ": RAM %d of %r" % (i, l))


# ---- large counts -------------------------------------------------------------------------------

HUGE_FACTORS = [255, 256, 32768, 65536, 10 ** 6, 2 ** 23, 2 ** 24, 2 ** 27, 2 ** 30, 2 ** 31]
FACTORS = [2, 10, 50, 126, 127, 128, 255, 256, 500, 1000, 1500, 5000, 16384, 32767, 32768, 40000, 65535, 65536, 100000]


@st.composite
def inflation(draw, factors=FACTORS):
    """["inflate", factor, seed]: every count of the saved model multiplied, most of them moved a little."""
    return ["inflate", draw(st.sampled_from(factors)), draw(st.integers(0, 9999))]


def saved_discs(kind, j):
    """The saved discriminators inside a json document."""
    if kind == "disc":
        return [j]
    if kind == "wisard":
        return list((j.get("classes") or {}).values())
    out = []
    for cl in list((j.get("clusters") or {}).values()) + ([j["unsupervisedCluster"]] if j.get("unsupervisedCluster") else []):
        out += cl["discriminators"] or []
    return out


def inflate(kind, text, op, asks=0, cap=2 ** 31 - 2):
    """The text of a saved model with larger counts: as after so many more trainings. `asks`: number of questions it will
    be asked (bleaching takes time linear in the counts); with too many of them the counts stay as they are."""
    j = json.loads(text)
    if asks:
        work = sum(len(d["mapping"]) for d in saved_discs(kind, j))
        work += sum(map(len, j.get("classes") or j.get("clusters") or [])) // 100
        cap = min(cap, 200000, 4 * 10 ** 7 // (asks * max(1, work)))
        if cap < 300:
            return text
    f, seed = op[1], op[2]
    r = random.Random(seed)
    for d in saved_discs(kind, j):
        rams = ref.decode_data(d["data"], len(d["mapping"]))
        for ram in rams:
            for a in ram:
                if ram[a]:
                    ram[a] = max(1, min(cap, ram[a] * f + (r.choice([-2, -1, 0, 0, 0, 1, f // 2]) if seed % 4 else 0)))
        d["data"] = ".".join(ref.encode_ram(x) for x in rams)
        d["count"] = min(cap, d["count"] * f)
        if kind != "clus" and seed % 3 == 1 and d["count"] > 0:
            # trainings far beyond what the RAMs of a few patterns need
            d["count"] = min(2 ** 31 - 10 ** 7, d["count"] + r.choice([2 ** 15, 2 ** 16, 2 ** 24, 2 ** 24 + 1, 2 ** 30]) + r.randint(-3, 3))
    return json.dumps(j)


def stuff(kind, text, base, seed, n=66000):
    """The text of a saved model in which one RAM knows n more patterns, as after so many more different entries; the
    text itself where no RAM has room for them."""
    j = json.loads(text)
    r = random.Random(seed)
    room = [(d, i) for d in saved_discs(kind, j) for i, m in enumerate(d["mapping"]) if base ** len(m) > 4 * n]
    if not room:
        return text
    d, i = r.choice(room)
    rams = ref.decode_data(d["data"], len(d["mapping"]))
    top = base ** len(d["mapping"][i]) - 1
    for _ in range(n):
        a = r.randint(0, top)
        rams[i].setdefault(a, 1)
    d["data"] = ".".join(ref.encode_ram(x) for x in rams)
    d["count"] = min(2 ** 31 - 2, d["count"] + n)
    return json.dumps(j)


def large_counts(cls, kind, text, op, base):
    """A saved model whose counts are as large as they get loads and saves again as it is (it is asked no questions: those
    take time linear in the counts)."""
    content = {"wisard": lambda t: ref.wisard_content(t, True), "clus": ref.cluswisard_content,
               "disc": lambda t: ref.disc_content(json.loads(t))}[kind]
    big = inflate(kind, text, op)
    j = json.loads(big)
    r = random.Random(op[2])
    for d in saved_discs(kind, j):
        d["count"] = min(2 ** 31 - 2, d["count"] * r.choice([1, 1, 300, 70000, 2 ** 24, 2 ** 31]))
    big = json.dumps(j)
    if op[2] % 60 == 31:
        big = stuff(kind, big, base, op[2])
    m = cls(big)
    for hop in range(2):
        t = m.json()
        same(content(t), content(big), "large counts, saved after loading %d" % (hop + 1))
        m = cls(t)
    return m


def ref_of(c, d):
    """RefDisc of a saved discriminator's content."""
    r = ref.RefDisc(d["mapping"], c["base"], c["ignoreZero"])
    r.count = d["count"]
    for i, ram in enumerate(d["rams"]):
        r.rams[i].update(ref.ram_patterns(ram, c["base"], len(d["mapping"][i])))
    return r


# ---- addressing -----------------------------------------------------------------------------------


def random_ok(m, n, a, complete, what):
    for r in m:
        same(len(r), a, what + ": address size of a RAM")
        for p in r:
            check(0 <= p < n, "%s: position %r of %d", what, p, n)
    seen = Counter(p for r in m for p in r)
    if complete:
        same(len(m), -(-n // a), what + ": number of RAMs")
        check(len(seen) == n, "%s: positions %r are never observed", what, sorted(set(range(n)) - set(seen))[:8])
    else:
        same(len(m), n // a, what + ": number of RAMs")
        check(all(v == 1 for v in seen.values()), "%s: positions observed twice: %r", what,
              [p for p, v in seen.items() if v > 1][:8])


def groups(ix, a, n):
    return [ix[i * a:(i + 1) * a] for i in range(n // a)]


def judge(c, m, explicit, what):
    n, a = c["entry"], c["addr"]
    if explicit is not None:
        same(m, explicit, what + ": explicit mapping")
    elif c.get("indexes") and c["mode"] in ("indexes", "mapping"):
        same(m, groups(c["indexes"], a, n), what + ": explicit indexes")
    else:
        random_ok(m, n, a, c["mode"] != "incomplete", what)


# ---- ClusWisard ---------------------------------------------------------------------------------

MIN_SCORES = [0.0, 0.1, 0.25, 0.3, 0.5, 0.7, 0.75, 0.9, 1.0, 0.0, 0.1, 0.25, 0.3, 0.5, 0.7, 0.75, 0.9, 1.0,
              0.001, 0.0078125, 0.125, 0.333, 0.6875, 0.996, 0.99999]
THRESHOLDS = [1, 1, 2, 2, 3, 4, 5, 8, 10, 10, 50, 257, 260, 1000, 65537, 65540, 100000, 2147483647]


@st.composite
def clus_cfg(draw, wide=True, bases=True, nasty=None, nlab=(1, 3), conf=True, degrees=False, max_entry=16,
             single=False):
    sh = draw(gen.shape(wide, bases, max_entry))
    c = dict(sh)
    if single:
        c["entry"] = c["addr"]
    c["minScore"] = draw(st.sampled_from(MIN_SCORES))
    c["threshold"] = draw(st.sampled_from(THRESHOLDS))
    c["limit"] = draw(st.one_of(st.integers(1, 3), st.integers(1, 6), st.integers(1, 14),
                                st.sampled_from([2, 5, 20, 100, 257, 258, 65537, 2 ** 31 - 1])))
    c["ignoreZero"] = draw(st.integers(0, 4)) == 0
    c["complete"] = draw(st.integers(0, 3)) != 0
    c["bleachingActivated"] = draw(st.integers(0, 5)) != 0
    c["confidence"] = draw(st.integers(1, max_conf(c))) if conf and draw(st.integers(0, 2)) == 0 else 1
    c["labels"] = draw(gen.labels(nlab[0], nlab[1], gen.rarely(draw, 4) if nasty is None else nasty))
    if degrees:
        for k in ("returnConfidence", "returnActivationDegree", "returnClassesDegrees"):
            c[k] = draw(st.booleans())
    return c


def clus_kwargs(c):
    kw = {}
    if c["base"] != 2:
        kw["base"] = c["base"]
    if c["ignoreZero"]:
        kw["ignoreZero"] = True
    if not c["complete"]:
        kw["completeAddressing"] = False
    if not c["bleachingActivated"]:
        kw["bleachingActivated"] = False
    if c["confidence"] != 1:
        kw["confidence"] = c["confidence"]
    for k in ("returnConfidence", "returnActivationDegree", "returnClassesDegrees", "verbose"):
        if c.get(k):
            kw[k] = True
    return kw


def make_clus(api, c, **more):
    kw = clus_kwargs(c)
    kw.update(more)
    return api.ClusWisard(c["addr"], c["minScore"], c["threshold"], c["limit"], **kw)


EPS = 1e-5


def score(votes):
    m = max(votes) if votes else 0
    if m <= 0:
        return 0.0
    return sum(votes) / (m * len(votes))


def dyadic(v):
    return 0 <= v <= 256 and v * 4096 == int(v * 4096)


class RefCluster:
    """One cluster with known (final) addressing of its discriminators, as an immutable-ish simulation state."""

    def __init__(self, c, mappings):
        self.c = c
        self.mappings = mappings
        self.discs = []

    def clone(self):
        o = RefCluster(self.c, self.mappings)
        o.discs = []
        for d in self.discs:
            n = ref.RefDisc(d.mapping, d.base, d.ignore_zero)
            n.rams = [r.copy() for r in d.rams]
            n.count = d.count
            o.discs.append(n)
        return o

    def outcomes(self, e):
        """The sets of discriminators that may learn e ('new' for a new one); several at a rounding boundary."""
        if not self.discs:
            return [("new",)]
        sc = [score(d.votes(e)) for d in self.discs]
        must, may = [], []
        for i, d in enumerate(self.discs):
            lim = min(1.0, self.c["minScore"] + d.count / self.c["threshold"])
            if dyadic(sc[i]) and dyadic(self.c["minScore"]) and dyadic(d.count / self.c["threshold"]):
                # exact in any floating point type
                if sc[i] >= lim:
                    must.append(i)
            elif sc[i] >= lim + EPS or (lim >= 1.0 and sc[i] >= 1.0):
                must.append(i)
            elif sc[i] >= lim - EPS:
                if lim - EPS >= 1.0 - 2 * EPS and sc[i] < 1.0 - 2 * EPS:
                    continue
                may.append(i)
        outs = []
        for mask in range(1 << min(len(may), 5)):
            sel = must + [may[k] for k in range(len(may)) if mask >> k & 1]
            if sel:
                outs.append(tuple(sorted(sel)))
            elif len(self.discs) < self.c["limit"]:
                outs.append(("new",))
            else:
                best = max(sc)
                exact = [i for i in range(len(sc)) if sc[i] == best]
                near = {exact[-1]} | {i for i in range(len(sc)) if sc[i] != best and best - sc[i] < EPS / 10}
                for i in sorted(near):
                    outs.append((i,))
        return sorted(set(outs), key=repr)

    def apply(self, e, out):
        if out == ("new",):
            i = len(self.discs)
            if i >= len(self.mappings):
                return False
            d = ref.RefDisc(self.mappings[i], self.c["base"], self.c["ignoreZero"])
            d.train(e)
            self.discs.append(d)
        else:
            for i in out:
                self.discs[i].train(e)
        return True

    def matches(self, content):
        """Does this state equal a saved cluster?"""
        ds = content["discriminators"]
        if len(ds) != len(self.discs):
            return False
        for d, r in zip(ds, self.discs):
            if d["count"] != r.count or d["mapping"] != r.mapping:
                return False
            for i, ram in enumerate(d["rams"]):
                want = {k: v for k, v in r.rams[i].items() if v}
                if ref.ram_patterns(ram, self.c["base"], len(r.mapping[i])) != want:
                    return False
        return True

    def votes(self, e):
        return [d.votes(e) for d in self.discs]


def from_content(c, content):
    """A RefCluster holding exactly what was saved."""
    rc = RefCluster(c, [d["mapping"] for d in content["discriminators"]])
    for d in content["discriminators"]:
        r = ref.RefDisc(d["mapping"], c["base"], c["ignoreZero"])
        r.count = d["count"]
        for i, ram in enumerate(d["rams"]):
            r.rams[i].update(ref.ram_patterns(ram, c["base"], len(d["mapping"][i])))
        rc.discs.append(r)
    return rc


def grow(c, before, entries, after, limit=64):
    """Is `after` (saved cluster content) a possible result of learning `entries` one by one from `before`
    (content or None)? Returns (ok, ambiguous, stats)."""
    maps = [d["mapping"] for d in after["discriminators"]]
    start = from_content(c, before) if before else RefCluster(c, [])
    start.mappings = maps
    states = [start]
    amb = False
    stats = {"new": 0, "joined": 0, "several": 0, "forced": 0}
    for e in entries:
        nxt = []
        for s in states:
            outs = s.outcomes(e)
            if len(outs) > 1:
                amb = True
            for o in outs:
                n = s.clone() if len(outs) > 1 else s
                if n.apply(e, o):
                    nxt.append(n)
                    if len(outs) == 1:
                        if o == ("new",):
                            stats["new"] += 1
                        elif len(o) > 1:
                            stats["several"] += 1
                        elif score(s.discs[o[0]].votes(e)) < 1:
                            stats["forced"] += 1
                        else:
                            stats["joined"] += 1
        states = nxt[:limit]
        if len(nxt) > limit:
            return True, True, stats
        if not states:
            return False, amb, stats
    return any(s.matches(after) for s in states), amb, stats


def clus_votes(clusters):
    """{(label, index): votes function inputs} of RefClusters -> candidates in composite form."""
    return clusters


def clus_candidates(refs, e):
    """refs: {label: RefCluster} -> {(label, i): votes}."""
    out = {}
    for l, rc in refs.items():
        for i, v in enumerate(rc.votes(e)):
            out[(l, i)] = v
    return out


def composite(k):
    return k[0] + "::" + str(k[1])


def clus_decide(refs, e, c, confidence=None):
    """(counts per candidate, threshold, acceptable winning classes)."""
    votes = clus_candidates(refs, e)
    counts, b = ref.bleach_fast(votes, c["bleachingActivated"], c["confidence"] if confidence is None else confidence)
    if not counts:
        return counts, b, {""}
    m = max(counts.values())
    top = [k for k in counts if counts[k] == m]
    by_comp = max(top, key=lambda k: ref.bkey(composite(k)))
    by_pair = max(top, key=lambda k: (ref.bkey(k[0]), k[1]))
    return counts, b, {by_comp[0], by_pair[0]}


def clus_refs(c, text):
    """({label: RefCluster}, unsupervised RefCluster or None) of ClusWisard.json()."""
    _, clusters, un = ref.cluswisard_content(text)
    return ({l: from_content(c, k) for l, k in clusters.items()}, from_content(c, un) if un else None)


def saved_options(o, c, clus):
    """The saved options are the configured ones."""
    want = {"addressSize": c["addr"], "base": c["base"], "ignoreZero": c["ignoreZero"],
            "bleachingActivated": c["bleachingActivated"], "confidence": c["confidence"],
            "completeAddressing": c["complete"] if clus else c["mode"] != "incomplete"}
    for k in ("returnConfidence", "returnActivationDegree", "returnClassesDegrees"):
        want[k] = bool(c.get(k))
    if clus:
        want["threshold"] = c["threshold"]
        want["discriminatorsLimit"] = c["limit"]
        check(abs(o["minScore"] - c["minScore"]) < 1e-6, "minScore saved as %r", o["minScore"])
    else:
        want["indexes"] = c.get("indexes") or []
    for k, v in want.items():
        same(o[k], v, "saved option " + k)


# ---- many calls -----------------------------------------------------------------------------------


class Single:
    """A model that is given every entry of a list in a call of its own."""

    def __init__(self, m):
        self._m = m

    def __getattr__(self, name):
        return getattr(self._m, name)

    def train(self, x, *more):
        if not isinstance(x, (list, tuple)) or not x or not isinstance(x[0], (list, tuple)):
            return self._m.train(x, *more)
        if not more:
            for e in x:
                self._m.train(e)
        elif isinstance(more[0], (list, tuple)) and len(more[0]) == len(x):
            for e, l in zip(x, more[0]):
                self._m.train([e], [l])
        else:
            self._m.train(x, *more)

    def leaveMoreOut(self, x, labels):
        for e, l in zip(x, labels):
            self._m.leaveMoreOut([e], [l])

    def trainUnsupervised(self, x):
        for e in x:
            self._m.trainUnsupervised([e])

    def classifyUnsupervised(self, x):
        return [a for e in x for a in self._m.classifyUnsupervised([e])]

    def classify(self, x):
        if isinstance(x, (list, tuple)) and x and isinstance(x[0], (list, tuple)):
            return [a for e in x for a in self._m.classify([e])]
        return self._m.classify(x)


class OneByOne:
    """The API with models that get their entries in calls of their own."""

    def __init__(self, api):
        self._api = api

    def __getattr__(self, name):
        return getattr(self._api, name)

    def Wisard(self, *a, **k):
        return Single(self._api.Wisard(*a, **k))

    def ClusWisard(self, *a, **k):
        return Single(self._api.ClusWisard(*a, **k))

    def Discriminator(self, *a, **k):
        return Single(self._api.Discriminator(*a, **k))


def calls(api, case, s):
    """The API as this case uses it: lists in one call, or every entry in its own."""
    if not case.get("single"):
        return api
    s.event("every entry in a call of its own")
    return OneByOne(api)


def single():
    return st.integers(0, 3).map(lambda k: k == 2)


def again(m, text):
    """Another model of the same kind from a text."""
    if isinstance(m, Single):
        return Single(type(m._m)(text))
    return type(m)(text)
