"""C29 The C++ header and the Python module behave the same."""
import base64
import json
import os

from hypothesis import strategies as st

from props import c24
from vlib import gen, models, ref
from vlib.core import ORDINARY, check, refused, same

ALL = ["py", "hdr", "gen", "src"]


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["disc", "wisard", "wisard", "wisard", "clus", "clus", "data", "handle", "reject", "reject",
                                 "small", "options", "options"]))
    if kind == "options":
        return draw(options())
    if kind == "reject":
        return {"kind": kind, "case": draw(c24.case()), "clock": 0}
    if kind == "small":
        img = draw(st.lists(st.sampled_from([0, draw(st.sampled_from([1, 2, 3, 255, 256, 3000]))]), max_size=12))
        return {"kind": kind, "image": img, "data": base64.b64encode(draw(st.binary(max_size=60))).decode(),
                "text": draw(st.text(max_size=12)), "dim": draw(st.integers(1, 3)), "n": draw(st.integers(1, 20)),
                "deg": draw(st.sampled_from([0.0, 1.0])), "bits": draw(st.one_of(st.integers(1, 4), st.sampled_from([1, 2, 8, 63, 64, 65, 200, 300]))), "clock": draw(gen.clock)}
    if kind == "data":
        labs = draw(gen.labels(1, 4)) + [""]
        adds = draw(st.lists(st.tuples(st.lists(st.integers(0, 1), max_size=20), st.sampled_from(labs),
                                       st.booleans()).map(list), max_size=6))
        return {"kind": kind, "adds": adds, "at": draw(st.lists(st.integers(-2, 25), max_size=4)), "clock": 0,
                "writer": draw(st.integers(0, 3)), "text": draw(st.binary(max_size=12)).hex()}
    if kind == "handle":
        addr = st.one_of(st.integers(0, 3), st.integers(0, 2 ** 64 - 1))
        val = st.integers(-3, 2 ** 31 - 1)
        rams = draw(st.lists(st.lists(st.tuples(addr, val).map(list), max_size=4, unique_by=lambda t: t[0]), min_size=1,
                             max_size=3))
        ops = draw(st.lists(st.tuples(st.sampled_from(["set", "get", "ram", "data", "one"]), st.integers(-1, len(rams) + 1),
                                      addr, val).map(list), max_size=6))
        return {"kind": kind, "rams": rams, "ops": ops, "clock": 0, "writer": draw(st.integers(0, 3))}
    nasty = draw(st.integers(0, 2)) == 0
    if kind == "disc":
        c = draw(gen.config(max_entry=14))
        c["labels"] = ["x"]
        kinds = ["train", "packed", "answers", "swap", "files"]
    elif kind == "wisard":
        c = draw(models.wisard_cfg(max_entry=14, nlab=(1, 4), nasty=nasty))
        kinds = ["train", "train", "train", "packed", "forget", "answers", "swap", "files", "config"]
    else:
        c = draw(models.clus_cfg(max_entry=10, nlab=(1, 3), nasty=nasty, single=draw(st.integers(0, 3)) != 0))
        kinds = ["train", "train", "unsup", "semi", "answers", "swap", "files"]
    pool = draw(gen.entries(c["base"], c["entry"], 2, 5))
    ops = []
    for _ in range(draw(st.integers(1, 9))):
        ops.append([draw(st.sampled_from(kinds)), draw(gen.pairs(len(pool), len(c["labels"]), 1, 5)),
                    draw(st.sampled_from([None, None, None, None, "short", "long", "neg", "base", "labels"])),
                    draw(st.integers(0, 3))])
    return {"kind": kind, "cfg": c, "pool": pool, "ops": ops, "first": draw(st.integers(0, 3)), "clock": draw(gen.clock)}


INT = st.one_of(st.integers(-3, 5), st.sampled_from([-2 ** 31, 2 ** 31 - 1, 100, 255, 256, 32767, 32768, 65536, -32769]))
WISARD_OPTIONS = {k: st.booleans() for k in ("bleachingActivated", "verbose", "ignoreZero", "completeAddressing",
                                             "searchBestConfidence", "returnConfidence", "returnActivationDegree",
                                             "returnClassesDegrees")}
WISARD_OPTIONS.update({"base": INT, "confidence": INT, "indexes": st.lists(INT, max_size=6)})
SCORE = st.sampled_from([0.0, 1.0, 0.5, 0.25, 0.1, 0.3, 0.7, 0.123456, 1e-6, -0.5, 1.5, 3e10])


@st.composite
def options(draw):
    """Every option of a class left out, given, or given a value that is out of range or of no use."""
    cls = draw(st.sampled_from(["Wisard", "ClusWisard", "Discriminator", "KernelCanvas"]))
    if cls == "KernelCanvas":
        opts = {"bitsByKernel": st.one_of(st.integers(1, 4), st.sampled_from([-1, 0, 1, 8, 64, 65, 100, 300])), "activationDegree": SCORE, "useDirection": st.just(False)}
        args = [draw(st.integers(1, 3)), draw(st.integers(1, 200))]
    elif cls == "Discriminator":
        opts = {"ignoreZero": st.booleans(), "completeAddressing": st.booleans(), "base": INT,
                "indexes": st.lists(st.integers(-1, 8), max_size=6),
                "mapping": st.lists(st.lists(st.integers(-1, 8), max_size=4), max_size=4)}
        args = [draw(st.integers(0, 5)), draw(st.integers(0, 8))]
    else:
        opts = dict(WISARD_OPTIONS)
        args = [draw(INT)]
        opts["mapping"] = st.dictionaries(st.sampled_from(["a", "b", ""]),
                                          st.lists(st.lists(st.integers(-1, 8), max_size=4), max_size=4), max_size=2)
        if cls == "ClusWisard":
            del opts["indexes"], opts["mapping"]
            args += [draw(SCORE), draw(INT), draw(INT)]
    keep = draw(st.integers(0, 3))
    kw = {k: draw(v) for k, v in opts.items() if keep == 3 or (keep and draw(st.integers(0, 2)) < keep)}
    return {"kind": "options", "cls": cls, "args": args, "kw": kw, "clock": draw(gen.clock)}


def outcome(f, *a, **k):
    """(True, value) or (False, None) for an ordinary error."""
    try:
        return True, f(*a, **k)
    except ORDINARY:
        return False, None


def clusters(v):
    """The clusters of a ClusWisard's content, the unsupervised one last."""
    return sorted(v[1].items()) + ([("", v[2])] if v[2] else [])


def positional(d, base):
    """A discriminator of one RAM, whatever order its positions are observed in."""
    order = d["mapping"][0]
    out = {}
    for pat, v in ref.ram_patterns(d["rams"][0], base, len(order)).items():
        out[tuple(x for _, x in sorted(zip(order, pat)))] = v
    return d["entrySize"], sorted(order), d["count"], out


class PROP:
    ID = "C29"
    BACKENDS = ["all"]
    MODULES = {"all": ALL}
    QUICK, THOROUGH = 1500, 30000
    QUICK_S = 35
    RULE = ("the Python module, the committed header, the freshly generated header and src/ run in one process: the same "
            "configuration (addressing taken from the first one's save where it is random) and the same training, "
            "forgetting, classification, packed input, mental image, size and refused calls on Discriminators, Wisards, "
            "ClusWisards; each model keeps being replaced by one loaded from another's json, file-backed save or jsonConfig; "
            "DataSet files, packed inputs and RAM data written by one are read by the others; accepted configurations are "
            "compared with C24's generator; options left out, given, and given "
            "odd values are compared in what is saved. Results must be equal. Non-trivial: a model with learned content was "
            "exchanged and asked afterwards, or an input was refused by all")
    ASSUMPTIONS = ["random choices (kernels, synthetic entries, random addressing) are not compared, what follows from them is",
                   "ClusWisard histories in which new discriminators get random addressing are compared in full only for "
                   "discriminators of one RAM, where the addressing does not matter"]

    @staticmethod
    def strategy(tier, backend):
        return case()

    @staticmethod
    def run(api, case, s):
        s.clock(case["clock"])
        s.event(case["kind"])
        mods = [s.w.mods[n] for n in ALL]
        same(len({m.__version__ for m in mods}), 1, "versions")
        {"reject": PROP.reject, "small": PROP.small, "data": PROP.data, "handle": PROP.handle,
         "options": PROP.options}.get(
            case["kind"], PROP.model)(mods, case, s)

    # ---- models ---------------------------------------------------------------------------------

    @staticmethod
    def model(mods, case, s):
        kind, c, pool, labels = case["kind"], case["cfg"], case["pool"], case["cfg"]["labels"]
        cname = {"disc": "Discriminator", "wisard": "Wisard", "clus": "ClusWisard"}[kind]
        view = {"disc": lambda t: ref.disc_content(json.loads(t)), "wisard": ref.wisard_content,
                "clus": ref.cluswisard_content}[kind]
        asked = models.neighbours(pool, c["base"], 1)[:8]

        def new(api):
            if kind == "disc":
                return api.Discriminator(c["addr"], c["entry"], **gen.disc_kwargs(c))
            return (models.make_wisard if kind == "wisard" else models.make_clus)(api, c)

        ms = [new(m) for m in mods]
        explicit = c.get("mode") == "indexes" or (kind == "disc" and c["mode"] == "mapping") or \
            (kind == "wisard" and c["mode"] == "mapping" and (c.get("indexes") or len(c["mapping"]) == len(labels)))
        single = kind == "clus" and c["addr"] == c["entry"]
        for i, m in enumerate(ms):
            if kind == "wisard":
                m.train([pool[k % len(pool)] for k in range(len(labels))], labels)
            elif single and any(op[2] in ("short", "long") for op in case["ops"]):
                # otherwise the first entry of a class decides on its size, and with it on the number of RAMs
                m.train([pool[0]] * len(labels), labels)
                m.trainUnsupervised([pool[0]])
        if not explicit and not single or kind == "clus":
            i0 = case["first"]
            if kind == "clus" and not single:
                for k in range(3):
                    ms[i0].train(pool, [labels[(i + k) % len(labels)] for i in range(len(pool))])
            text = ms[i0].json()
            ms = [m if i == i0 else getattr(mods[i], cname)(text) for i, m in enumerate(ms)]
        changed = exchanged = False
        # learning that may create discriminators with random addressing
        free = kind == "clus" and not single

        def agree(outs, what):
            for n, o in zip(ALL[1:], outs[1:]):
                same(o, outs[0], "%s of %s and %s" % (what, n, ALL[0]))
            return outs[0]

        def compare(what):
            if kind == "clus":
                # with one RAM per discriminator the order of the observed positions is random, and only shows in mapping
                if single:
                    agree([[view(m.json())[0]] + [(l, [positional(d, c["base"]) for d in cl["discriminators"]])
                                                  for l, cl in clusters(view(m.json()))] for m in ms], "clusters " + what)
                else:
                    agree([view(m.json()) for m in ms], "content " + what)
            else:
                agree([view(m.json()) for m in ms], "content " + what)

        def skeleton(text):
            j = json.loads(text)
            if kind == "clus":
                return sorted((l, len(k["discriminators"] or [])) for l, k in (j.get("clusters") or {}).items()) + [
                    len((j.get("unsupervisedCluster") or {}).get("discriminators") or [])]
            return sorted(j.get("classes") or {}) if kind == "wisard" else []

        sizes = []
        compare("at first")
        for k, pairs, damage, pick in case["ops"]:
            es = [list(pool[e]) for e, _ in pairs]
            ls = [labels[l] for _, l in pairs]
            if damage == "short":
                es[pick % len(es)] = es[0][:-1]
            elif damage == "long":
                es[pick % len(es)] = es[0] + [0]
            elif damage == "neg":
                es[pick % len(es)][pick % c["entry"]] = -1
            elif damage == "base" and c["base"] < 2 ** 31 - 1:
                es[pick % len(es)][pick % c["entry"]] = c["base"]
            elif damage == "labels":
                ls = ls[1:] if pick % 2 else ls + ls[:1]
            if free and k in ("train", "unsup", "semi"):
                # the same is learned by all unless a discriminator with random addressing is created; then exchange
                i = pick
                if damage:
                    # whether an odd value is seen depends on the addressing of what may be created
                    outcome(ms[i].train, es, ls) if k != "unsup" else outcome(ms[i].trainUnsupervised, es)
                n0 = [[(l, len(cl["discriminators"])) for l, cl in clusters(view(m.json()))] for m in ms]
                if damage:
                    pass
                elif k == "semi":
                    d = {q: l for q, l in enumerate(ls[:2])}
                    agree([outcome(m.train, es, dict(d))[0] for m in ms], "train with a dictionary")
                elif k == "unsup":
                    agree([outcome(m.trainUnsupervised, es)[0] for m in ms], "trainUnsupervised")
                else:
                    agree([outcome(m.train, es, ls)[0] for m in ms], "train")
                n1 = [[(l, len(cl["discriminators"])) for l, cl in clusters(view(m.json()))] for m in ms]
                if not damage and any(a == b for a, b in zip(n0, n1)):
                    agree(n1, "discriminators after %s" % k)
                    compare("after " + k)
                    s.event("nothing created")
                t = ms[i].json()
                ms = [m if q == i else getattr(mods[q], cname)(t) for q, m in enumerate(ms)]
                changed = exchanged = True
                compare("after %s and exchange" % k)
                continue
            if k == "train":
                if kind == "disc":
                    r = agree([outcome(m.train, es)[0] for m in ms], "train")
                else:
                    r = agree([outcome(m.train, es, ls)[0] for m in ms], "train")
                changed = True
            elif k == "unsup":
                r = agree([outcome(m.trainUnsupervised, es)[0] for m in ms], "trainUnsupervised")
            elif k == "semi":
                d = {(i * 2 if pick else i): l for i, l in enumerate(ls[:1 + pick])}
                r = agree([outcome(m.train, es, dict(d))[0] for m in ms], "train with a dictionary")
            elif k == "forget":
                if pick == 0 and ls:
                    r = agree([outcome(m.leaveOneOut, es[0], ls[0])[0] for m in ms], "leaveOneOut")
                else:
                    r = agree([outcome(m.leaveMoreOut, es, ls)[0] for m in ms], "leaveMoreOut")
            elif k == "packed":
                if not all(models.bits(e) for e in es):
                    continue
                r = True
                if kind == "disc":
                    r = agree([outcome(m.train, a.BinInput(es[0]))[0] for a, m in zip(mods, ms)], "train of a BinInput")
                    agree([outcome(m.classify, a.BinInput(es[-1])) for a, m in zip(mods, ms)], "answers to a BinInput")
                else:
                    sets = [models.dataset(a, list(zip(es, ls))) for a in mods]
                    if all(ls):
                        r = agree([outcome(m.train, d)[0] for m, d in zip(ms, sets)], "train of a data set")
                    agree([outcome(m.classify, d) for m, d in zip(ms, sets)], "answers to a data set")
            elif k == "answers":
                if kind == "disc":
                    r = agree([[outcome(lambda: list(m.classify(e))) for e in es] for m in ms], "answers")
                    r = all(o[0] for o in r)
                    agree([[outcome(lambda: list(m.classify(e))) for e in asked] for m in ms], "answers")
                else:
                    r = agree([outcome(lambda: list(m.classify(es))) for m in ms], "answers")[0]
                    agree([outcome(lambda: list(m.classify(asked))) for m in ms], "answers")
                    agree([dict(m.getMentalImages()) for m in ms], "mental images")
                    if kind == "clus":
                        agree([outcome(lambda: list(m.classifyUnsupervised(asked))) for m in ms], "unsupervised answers")
                        agree([[m.getMentalImage(l) for l in labels + ["?"]] for m in ms], "mental images")
                # what an object itself takes is up to each build: the growth since the last look, the parts being the same
                now = [(skeleton(m.json()), m.getsizeof()) for m in ms if hasattr(m, "getsizeof")]
                if sizes and all(a[0] == b[0] for a, b in zip(now, sizes)):
                    agree([a[1] - b[1] for a, b in zip(now, sizes)], "growth")
                    s.event("growth compared")
                sizes = now
                if exchanged and changed:
                    s.nontrivial = True
            elif k in ("swap", "files"):
                root = s.tmp()
                ts = [m.json() if k == "swap" else m.json(True, os.path.join(root, "m")) for m in ms]
                q = 1 + pick % 3
                ms = [getattr(mods[i], cname)(ts[(i + q) % 4]) for i in range(4)]
                exchanged = True
                r = True
            else:
                ts = [m.jsonConfig() for m in ms]
                agree([json.loads(t) for t in ts], "jsonConfig") if explicit and False else None
                fs = [getattr(mods[i], cname)(ts[(i + 1 + pick) % 4]) for i in range(4)]
                agree([view(f.json()) for f in fs], "what is loaded from jsonConfig")
                r = agree([[outcome(f.train, es, ls)[0], view(f.json())] for f in fs], "training what is loaded")[0]
            if r is False:
                s.event("refused by all")
                s.nontrivial = True
            compare("after " + k)
        if exchanged:
            s.event("exchanged")

    @staticmethod
    def options(mods, case, s):
        """What each of them makes of the same options, as far as it can be seen in what it saves or answers."""
        cls, args, kw = case["cls"], case["args"], case["kw"]
        made = [outcome(getattr(m, cls), *args, **kw) for m in mods]
        outs = []
        for ok, m in made:
            if not ok:
                outs.append("refused")
            elif cls == "KernelCanvas":
                code = list(m.transform([[1.0] * args[0]]))
                outs.append([len(code), sum(code)])
                # without directions the order of two points does not matter
                d = args[0]
                for k in range(6):
                    a = [float((k * 7 + i * 5) % 11 - 3) for i in range(d)]
                    b = [float((k * 4 + i * 3) % 13 - 6) for i in range(d)]
                    same(list(m.transform([a, b])), list(m.transform([b, a])),
                         "KernelCanvas(%r, %r): code of %r in the other order" % (args, kw, [a, b]))
            else:
                t = json.loads(m.json())
                if cls == "Discriminator":
                    if not kw.get("mapping"):
                        t["mapping"] = [len(r) for r in t["mapping"]]
                    t.pop("data", None)
                outs.append([t, json.loads(m.jsonConfig()) if cls != "Discriminator" else None])
        for n, o in zip(ALL[1:], outs[1:]):
            same(o, outs[0], "%s(%r, %r): %s and %s" % (cls, args, kw, n, ALL[0]))
        s.event("options refused" if outs[0] == "refused" else "options accepted")
        s.nontrivial = bool(kw)

    # ---- configurations -------------------------------------------------------------------------

    @staticmethod
    def reject(mods, case, s):
        """Every one of them passes C24's oracle on the same case."""
        mark = False
        for name, m in zip(ALL, mods):
            s.nontrivial = False
            try:
                c24.PROP.run(m, json.loads(json.dumps(case["case"])), s)
            except AssertionError as e:
                raise AssertionError("%s: %s" % (name, e))
            mark = mark or s.nontrivial
        s.nontrivial = mark

    # ---- data -----------------------------------------------------------------------------------

    @staticmethod
    def data(mods, case, s):
        root = s.tmp()
        sets = []
        for a in mods:
            d = a.DataSet()
            for e, l, packed in case["adds"]:
                x = a.BinInput(e) if packed else e
                d.add(x, l) if l else d.add(x)
            sets.append(d)

        def content(d):
            out = []
            for i in list(range(d.size())) + case["at"]:
                ok, b = outcome(d.get, i)
                out.append([ok and [b.get(q) for q in range(b.size())], outcome(d.getLabel, i)])
            return out

        want = content(sets[0])
        for n, d in zip(ALL, sets):
            same(content(d), want, "data set of " + n)
        w = case["writer"]
        p = os.path.join(root, "d")
        sets[w].save(p)
        for n, a in zip(ALL, mods):
            same(content(a.DataSet(p + ".wpkds")), want, "%s reading the file of %s" % (n, ALL[w]))
        raw = []
        for q, d in enumerate(sets):
            d.save(p)
            with open(p + ".wpkds", "rb") as fh:
                raw.append(fh.read())
        for n, r in zip(ALL, raw):
            same(r, raw[0], "file of " + n)
        for e, _, _ in case["adds"]:
            bs = [a.BinInput(e) for a in mods]
            for n, b in zip(ALL, bs):
                same(b.data(), bs[0].data(), "packed data of " + n)
            for n, a in zip(ALL, mods):
                o = a.BinInput(bs[w].data())
                same([o.get(i) for i in range(o.size())], e, "%s reading packed data of %s" % (n, ALL[w]))
                same(len({outcome(o.get, i) for i in case["at"]} ^ {outcome(bs[0].get, i) for i in case["at"]}), 0,
                     "positions of " + n)
        # text that may or may not be packed data
        t = base64.b64encode(bytes.fromhex(case["text"])).decode()
        outs = [outcome(lambda a=a: [a.BinInput(t).get(i) for i in range(a.BinInput(t).size())]) for a in mods]
        for n, o in zip(ALL, outs):
            same(o, outs[0], "%s reading %r" % (n, t))
        s.nontrivial = len({l for _, l, _ in case["adds"]}) > 1

    @staticmethod
    def handle(mods, case, s):
        w = case["writer"]
        t = ".".join(ref.encode_ram(dict((a, v) for a, v in r)) for r in case["rams"])
        hs = [a.RAMDataHandle(t) for a in mods]

        def agree(f, what):
            outs = [outcome(f, h) for h in hs]
            for n, o in zip(ALL, outs):
                same(o, outs[0], "%s of %s and %s" % (what, n, ALL[0]))

        for k, r, a, v in case["ops"]:
            if k == "set" and r < len(case["rams"]):
                agree(lambda h: h.set(r, a, v), "set")
            elif k == "get":
                agree(lambda h: h.get(r, a), "get")
            elif k == "ram":
                agree(lambda h: dict(h.get(r)), "RAM")
            elif k == "one":
                agree(lambda h: ref.decode_ram(h.data(r)), "data of a RAM")
            else:
                agree(lambda h: [ref.decode_ram(x) for x in h.data().split(".")], "data")
        d = hs[w].data()
        hs = [a.RAMDataHandle(d) for a in mods]
        agree(lambda h: [dict(h.get(r)) for r in range(len(case["rams"]))], "contents after exchange")
        s.nontrivial = any(len(r) > 1 for r in case["rams"]) and bool(case["ops"])

    @staticmethod
    def small(mods, case, s):
        img = case["image"]
        if img:
            outs = [[list(a.Synthesizer(img).make()) for _ in range(2)] for a in mods]
            for n, o in zip(ALL, outs):
                same(o, [[1 if v else 0 for v in img]] * 2, "synthetic entries of " + n)
        raw = base64.b64decode(case["data"])
        for n, a in zip(ALL, mods):
            if hasattr(a, "b64encode"):
                same(a.b64encode(raw), base64.b64encode(raw), "base64 of " + n)
                same(a.b64decode(base64.b64encode(raw)), raw, "base64 text of " + n)
        loads = {}
        for cls in ("Wisard", "ClusWisard", "Discriminator", "RAMDataHandle", "BinInput", "DataSet"):
            loads[cls] = [outcome(getattr(a, cls), case["text"])[0] for a in mods]
            for n, o in zip(ALL, loads[cls]):
                same(o, loads[cls][0], "%s(%r) of %s" % (cls, case["text"], n))
        pts = [[float(i * j % 3) for j in range(case["dim"])] for i in range(4)]
        outs = [list(a.KernelCanvas(case["dim"], case["n"], activationDegree=case["deg"], bitsByKernel=case["bits"])
                     .transform(pts)) for a in mods]
        for n, o in zip(ALL, outs):
            same(o, [int(case["deg"])] * (case["n"] * case["bits"]), "code of " + n)
        s.nontrivial = bool(img) and len(raw) > 1
