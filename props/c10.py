"""C10 File-backed saves are faithful and never disturb each other."""
import json
import os
import resource

from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import check, refused, same

PREFIXES = ["", "m", "m_", "sub/", "sub/m", "a__", "a", "dir.d/x.", "unsupervised_cluster__", "\u00e9", "x y"]


@st.composite
def case(draw):
    ms = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(["wisard", "wisard", "disc", "clus", "clus"]))
        nasty = draw(st.integers(0, 2)) == 0
        if kind == "wisard":
            c = draw(models.wisard_cfg(nasty=nasty, nlab=(1, 4), wide=draw(st.booleans()), max_entry=16))
        elif kind == "clus":
            c = draw(models.clus_cfg(nasty=nasty, nlab=(1, 3), wide=draw(st.booleans()), max_entry=10))
        else:
            c = draw(gen.config(max_entry=16))
            c["labels"] = ["x"]
        pool = draw(gen.entries(c["base"], c["entry"], 1, 4))
        ms.append({"kind": kind, "cfg": c, "pool": pool})
    n = len(ms)
    ops = []
    pre = draw(st.lists(st.sampled_from(PREFIXES), min_size=1, max_size=2))
    for _ in range(draw(st.integers(2, 10))):
        k = draw(st.integers(0, 9))
        m = draw(st.integers(0, n - 1))
        if k <= 3:
            nl = len(ms[m]["cfg"]["labels"])
            es = draw(gen.picked(len(ms[m]["pool"]), 1, 4))
            pairs = [[e, (draw(st.integers(0, nl - 1)) if len(es) < 20 else i) % nl] for i, e in enumerate(es)]
            ops.append(["train", m, pairs, draw(st.integers(0, 3)) == 0])
        elif k <= 7:
            ops.append(["save", m, draw(st.integers(0, len(pre) - 1)), draw(st.sampled_from([0, 0, 0, 1, 7]))])
        else:
            ops.append(["load", draw(st.integers(0, 20))])
    for m in range(n):
        c = ms[m]["cfg"]
        if draw(st.integers(0, 29)) == 17 and c["base"] ** c["addr"] > 1000 and c["entry"] < 30:
            ops.insert(draw(st.integers(0, len(ops))), ["flood", m, draw(st.integers(0, 9999)),
                                                        draw(st.sampled_from([200, 300, 600, 1100, 2100, 4400]))])
    if gen.rarely(draw, 12):
        ops.insert(draw(st.integers(1, len(ops))), ["inflate", draw(st.integers(0, n - 1)), draw(models.inflation())])
    if draw(st.integers(0, 99)) == 57:
        # many saves in a row; no other long operation then
        ops = [o for o in ops if o[0] != "flood"]
        ops.insert(draw(st.integers(0, len(ops))), ["series", draw(st.integers(0, n - 1)), draw(st.integers(0, len(pre) - 1)),
                                                    draw(st.sampled_from([12, 20, 40, 70, 101, 130, 260, 300]))])
    fault = draw(st.sampled_from(["none", "none", "missing", "nodir", "trunc", "isdir", "full", "longname"]))
    return {"models": ms, "ops": ops, "prefixes": pre, "clock": draw(gen.clock), "fault": fault,
            "pick": draw(st.integers(0, 1000)), "cut": draw(st.integers(0, 10 ** 6)),
            "absolute": draw(st.booleans()), "fill": draw(st.integers(1, 60))}


def make(api, m):
    c = m["cfg"]
    if m["kind"] == "wisard":
        return models.make_wisard(api, c)
    if m["kind"] == "clus":
        return models.make_clus(api, c)
    return api.Discriminator(c["addr"], c["entry"], **gen.disc_kwargs(c))


def loader(api, kind):
    return {"wisard": api.Wisard, "clus": api.ClusWisard, "disc": api.Discriminator}[kind]


def content(kind, text):
    if kind == "wisard":
        return ref.wisard_content(text)
    if kind == "clus":
        return ref.cluswisard_content(text)
    return ref.disc_content(json.loads(text))


def discs(kind, j):
    """The saved discriminators inside a json document."""
    if kind == "disc":
        return [j]
    if kind == "wisard":
        return list((j.get("classes") or {}).values())
    out = []
    for cl in list((j.get("clusters") or {}).values()) + ([j["unsupervisedCluster"]] if j.get("unsupervisedCluster")
                                                          else []):
        out += cl["discriminators"] or []
    return out


def tree(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[p] = fh.read()
    return out


class PROP:
    ID = "C10"
    BACKENDS = ["py", "py", "py", "py", "py", "src", "hdr", "hdr"]
    QUICK, THOROUGH = 2800, 50000
    QUICK_S = 35
    RULE = ("one to three Wisards, ClusWisards and Discriminators trained and saved with json(True, prefix) under one or "
            "two shared prefixes while the clock (the seed of the file names) stands still or moves; any earlier save is "
            "loaded at any time and must equal the model at the time of that save; files of earlier saves keep their "
            "bytes; some get hundreds of saves in a row; some models get up to 4400 random patterns in between; then one fault: the RAM file deleted, cut short, replaced by a directory, the folder missing, "
            "the file system full (RLIMIT_FSIZE), a too long name: save or load must raise. Non-trivial: at least two "
            "saves with RAM contents, or a fault that hits one")

    @staticmethod
    def strategy(tier, backend):
        return case()

    @staticmethod
    def run(api, case, s):
        home = os.getcwd()
        try:
            os.chdir(s.tmp())
            PROP._run(api, case, s)
        finally:
            os.chdir(home)

    @staticmethod
    def _run(api, case, s):
        root = s.tmp()
        for d in ("sub", "dir.d"):
            os.mkdir(os.path.join(root, d))
        clock = case["clock"]
        s.clock(clock)
        ms = [make(api, m) for m in case["models"]]
        saves = []   # (model number, text, snapshot content, (questions, answers), files)
        asked = [models.neighbours(m["pool"], m["cfg"]["base"], 2) for m in case["models"]]

        def answers(i, m, es=None):
            es = es or list(asked[i])
            if case["models"][i]["kind"] == "disc":
                return es, [list(m.classify(e)) for e in es]
            return es, m.classify(es)

        def load(k):
            i, text, snap, ans, _ = saves[k]
            m = loader(api, case["models"][i]["kind"])(text)
            same(content(case["models"][i]["kind"], m.json()), snap, "save %d loaded" % k)
            same(answers(i, m, ans[0]), ans, "answers of save %d loaded" % k)

        def prefix(k):
            p = case["prefixes"][k]
            return os.path.join(root, p) if case["absolute"] else p

        for op in case["ops"]:
            if op[0] == "train":
                m, c, pool = ms[op[1]], case["models"][op[1]]["cfg"], case["models"][op[1]]["pool"]
                es = [pool[e] for e, _ in op[2]]
                ls = [c["labels"][l] for _, l in op[2]]
                kind = case["models"][op[1]]["kind"]
                if kind == "disc":
                    m.train(es)
                elif kind == "clus" and op[3]:
                    m.trainUnsupervised(es)
                else:
                    m.train(es, ls)
            elif op[0] == "flood":
                i, c, kind = op[1], case["models"][op[1]]["cfg"], case["models"][op[1]]["kind"]
                es = gen.flood(c, op[2], op[3] if kind != "clus" else min(op[3], 300))
                asked[i] += es[::max(1, len(es) // 20)]
                if kind == "disc":
                    ms[i].train(es)
                else:
                    ms[i].train(es, [c["labels"][op[2] % len(c["labels"])]] * len(es))
                s.event("hundreds of patterns")
            elif op[0] == "series":
                i, kind = op[1], case["models"][op[1]]["kind"]
                pool, labels = case["models"][i]["pool"], case["models"][i]["cfg"]["labels"]
                before = tree(root)
                for k in range(op[3]):
                    if k % 7 == 3:
                        e = [pool[k % len(pool)]]
                        ms[i].train(e) if kind == "disc" else ms[i].train(e, [labels[k % len(labels)]])
                    snap = content(kind, ms[i].json())
                    saves.append((i, ms[i].json(True, prefix(op[2]) or "q"), snap, answers(i, ms[i]), []))
                after = tree(root)
                for f, b in before.items():
                    check(after.get(f) == b, "a series of saves changed the file %r of an earlier save", f[len(root):])
                s.event("dozens or hundreds of saves in a row")
            elif op[0] == "inflate":
                i, kind = op[1], case["models"][op[1]]["kind"]
                ms[i] = loader(api, kind)(models.inflate(kind, ms[i].json(), op[2], 20 * len(asked[i])))
                if op[2][2] % 60 == 31:
                    ms[i] = loader(api, kind)(models.stuff(kind, ms[i].json(), case["models"][i]["cfg"]["base"], op[2][2]))
                    s.event("tens of thousands of patterns")
                s.event("inflated")
            elif op[0] == "save":
                i = op[1]
                clock += op[3]
                s.clock(clock)
                if op[3] == 0 and saves:
                    s.event("saved at the same clock")
                kind = case["models"][i]["kind"]
                snap = content(kind, ms[i].json())
                before = tree(root)
                p = prefix(op[2])
                text = ms[i].json(True, p) if p or case["absolute"] else ms[i].json(True)
                after = tree(root)
                for f, b in before.items():
                    check(f in after and after[f] == b, "saving changed the file %r of an earlier save", f[len(root):])
                new = [f for f in after if f not in before]
                if not (p or case["absolute"]):
                    p = ""
                full = os.path.join(root, p)
                check(all(f.startswith(full) for f in new), "files %r not under the prefix %r", new, p)
                same(content(kind, ms[i].json()), snap, "the model after saving it")
                saves.append((i, text, snap, answers(i, ms[i]), new))
            elif saves:
                load(op[1] % len(saves))
                s.event("loaded later")
        before = tree(root)
        for k in range(len(saves)):
            load(k)
        check(tree(root) == before, "loading changed the files")
        filled = [k for k in range(len(saves)) if any(before[f] for f in saves[k][4])]
        s.nontrivial = len(filled) >= 2
        if case["fault"] != "none":
            PROP.fault(api, case, s, root, ms, saves, filled, answers)

    @staticmethod
    def fault(api, case, s, root, ms, saves, filled, answers):
        kind = case["fault"]
        if kind in ("nodir", "longname", "full"):
            i = case["pick"] % len(ms)
            c, m, mk = case["models"][i]["cfg"], ms[i], case["models"][i]["kind"]
            pool = case["models"][i]["pool"]
            if mk == "disc":
                m.train(pool)
            else:
                m.train(pool, [c["labels"][0]] * len(pool))
            snap = content(mk, m.json())
            before = tree(root)
            if kind == "nodir":
                check(refused(m.json, True, "no/such/dir/x"), "saving into a missing folder is not an error")
            elif kind == "longname":
                check(refused(m.json, True, "n" * 300), "saving under a name too long for a file is not an error")
            else:
                size = max((len(d["data"]) for d in discs(mk, json.loads(m.json()))), default=0)
                soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
                limit = max(0, size - 1 - case["cut"] % max(1, size))
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
                try:
                    r = refused(m.json, True, "full_")
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
                check(r, "saving %d bytes of RAM data into %d available is not an error", size, limit)
            after = tree(root)
            for f, b in before.items():
                check(after.get(f) == b, "a failing save changed an earlier file")
            same(content(mk, m.json()), snap, "the model after a failing save")
            s.event("fault " + kind)
            s.nontrivial = True
            return
        if not filled:
            return
        k = filled[case["pick"] % len(filled)]
        i, text, _, _, files = saves[k]
        mk = case["models"][i]["kind"]
        fs = sorted(f for f in files if os.path.getsize(f))
        f = fs[case["pick"] // 7 % len(fs)]
        j = json.loads(text)
        rams = [len(d["mapping"]) for d in discs(mk, j) if os.path.join(root, d["data"]) == f]
        same(len(rams), 1, "saved models naming the file %r" % f[len(root):])
        with open(f, "rb") as fh:
            data = fh.read()
        if kind == "missing":
            os.unlink(f)
        elif kind == "isdir":
            os.unlink(f)
            os.mkdir(f)
        else:
            cut = case["cut"] % len(data)
            parts = data[:cut].split(b".")
            if len(parts) >= rams[0] and len(parts[-1]) % 16 == 0:
                return    # what is left is a complete file of a smaller model
            with open(f, "wb") as fh:
                fh.write(data[:cut])
        check(refused(loader(api, mk), text), "loading with its RAM file %s is not an error", kind)
        s.event("fault " + kind)
        s.nontrivial = True
        # the other saves are not affected
        for q, (a, t, snap, ans, fl) in enumerate(saves):
            if q != k:
                m = loader(api, case["models"][a]["kind"])(t)
                same(content(case["models"][a]["kind"], m.json()), snap, "another save after the fault")
