"""C15 Mental images count the learned non-zero values per position."""
import json

from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import check, same


@st.composite
def case(draw, backend):
    kinds = ["wisard", "wisard", "clus"] + (["disc", "disc"] if backend != "py" else [])
    kind = draw(st.sampled_from(kinds))
    if kind == "disc":
        c = draw(gen.config())
        c["labels"] = ["x"]
    elif kind == "wisard":
        c = draw(models.wisard_cfg(nlab=(1, 3)))
    else:
        c = draw(models.clus_cfg(nlab=(1, 3), max_entry=14))
    pool = draw(gen.entries(c["base"], c["entry"], 1, 7))
    huge = gen.huge(draw, 400) if kind == "disc" else None
    if huge:
        c, pool = dict(huge[0], labels=["x"]), huge[1]
    kinds = ("train",) if kind == "clus" else ("train", "train", "forget")
    ops = []
    for _ in range(draw(st.integers(0, 6))):
        k = draw(st.sampled_from(kinds + ("ask", "reload")))
        if k in ("ask", "reload"):
            ops.append([k])
        else:
            es = draw(gen.picked(len(pool), 1, 5))
            nl = len(c["labels"])
            ops.append([k, [[e, draw(st.integers(0, nl - 1)) if len(es) < 20 else i % nl] for i, e in enumerate(es)],
                        draw(st.sampled_from([1, 1, 2, 3, 130, 300])) if len(es) < 20 else 1])
    if gen.rarely(draw, 10):
        f = draw(st.sampled_from([2, 50, 128, 256, 32768, 65536, 100000, 1000000]))
        ops.append(["inflate", f, 0])
    return {"kind": kind, "cfg": c, "pool": pool, "ops": ops, "clock": draw(gen.clock), "single": draw(models.single())}


class PROP:
    ID = "C15"
    BACKENDS = ["py", "py", "py", "py", "src", "src", "hdr", "hdr"]
    QUICK, THOROUGH = 2800, 50000
    QUICK_S = 35
    RULE = ("learning (and forgetting what was learned) of Wisards, ClusWisards and C++ Discriminators with every base and "
            "address sizes up to the 2^64 limit; the images must be the sums over the learned entries and the RAM slots, "
            "computed from the entries (for ClusWisard from the saved contents, which C11 ties to the entries). "
            "Non-trivial: an image with two different non-zero numbers")

    @staticmethod
    def strategy(tier, backend):
        return case(backend)

    @staticmethod
    def run(api, case, s):
        api = models.calls(api, case, s)
        c, pool, labels = case["cfg"], case["pool"], case["cfg"]["labels"]
        kind = case["kind"]
        s.clock(case["clock"])
        s.event(kind)
        if kind == "disc":
            m = api.Discriminator(c["addr"], c["entry"], **gen.disc_kwargs(c))
        else:
            m = (models.make_wisard if kind == "wisard" else models.make_clus)(api, c)
        factor = 1
        learned = {}   # label -> list of entries

        def ask():
            if kind == "disc":
                got = {"x": m.getMentalImage()}
                maps = {"x": json.loads(m.json())["mapping"]}
                learned.setdefault("x", [])
            elif kind == "wisard":
                got = m.getMentalImages()
                maps = {l: d["mapping"] for l, d in (json.loads(m.json())["classes"] or {}).items()}
            else:
                return ask_clus()
            same(sorted(got), sorted(learned), "labels of the images")
            for l, img in got.items():
                slots = [0] * c["entry"]
                for ram in maps[l]:
                    for p in ram:
                        slots[p] += 1
                want = [slots[p] * factor * sum(1 for e in learned[l] if e[p]) for p in range(c["entry"])]
                same(list(img), want, "image of %r (addressing %r)" % (l, maps[l]))
                mark(img)

        def ask_clus():
            got = m.getMentalImages()
            refs, _ = models.clus_refs(c, m.json())
            same(sorted(got), sorted(learned), "labels of the images")
            for l, imgs in got.items():
                same([list(i) for i in imgs], [d.mental(c["entry"]) for d in refs[l].discs], "images of %r" % l)
                same([list(i) for i in m.getMentalImage(l)], [list(i) for i in imgs], "getMentalImage(%r)" % l)
                # every entry is learned at least once
                for p in range(c["entry"]):
                    if all(any(p in ram for ram in d.mapping) for d in refs[l].discs):
                        n = sum(1 for e in learned[l] if e[p])
                        check(sum(i[p] for i in imgs) >= n, "position %d of %r: %d entries set it", p, l, n)
                if imgs:
                    mark(max(imgs, key=sum))
            same(list(m.getMentalImage("no such label")), [], "images of an unknown label")

        def mark(img):
            if len({v for v in img if v}) > 1:
                s.nontrivial = True

        for op in case["ops"]:
            if op[0] == "ask":
                ask()
            elif op[0] == "inflate":
                most = max([len(v) for v in learned.values()] or [0]) * c["entry"]
                if kind == "clus" or most * op[1] >= 2 ** 31:
                    continue
                m = models.again(m, models.inflate(kind, m.json(), op))
                factor = op[1]
                s.event("inflated")
            elif op[0] == "reload":
                m = models.again(m, m.json())
            else:
                pairs = [(pool[e], labels[l]) for e, l in op[1]] * op[2]
                if op[0] == "forget":
                    forget = []
                    for e, l in pairs:
                        if e in learned.get(l, []):
                            learned[l].remove(e)
                            forget.append((e, l))
                    s.event("forgot", len(forget))
                    if kind == "disc":
                        for e, _ in forget:
                            m.untrain(e)
                    elif len(forget) == 1:
                        m.leaveOneOut(*forget[0])
                    else:
                        m.leaveMoreOut([e for e, _ in forget], [l for _, l in forget])
                else:
                    if kind == "disc":
                        m.train([e for e, _ in pairs])
                    else:
                        m.train([e for e, _ in pairs], [l for _, l in pairs])
                    for e, l in pairs:
                        learned.setdefault(l, []).append(e)
        ask()
        if c["base"] > 2:
            s.event("base > 2")
        if c["addr"] * (c["base"].bit_length() - 1) >= 31:
            s.event("addresses beyond 31 bits")
