"""C01 RAM responses count exactly the matching learned entries."""
import json

from hypothesis import strategies as st

from vlib import gen, models
from vlib.core import check, same
from vlib.ref import RefDisc, disc_content


@st.composite
def case(draw):
    c = draw(gen.config())
    pool = draw(gen.entries(c["base"], c["entry"], 2, 6))
    huge = gen.huge(draw)
    if huge:
        c, pool = huge
    n = len(pool)
    big = draw(st.integers(0, 60)) == 0 and c["entry"] <= 12
    tm = st.integers(1, 5) if huge else gen.times_big if big else gen.times
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.integers(0, 9))
        if k <= 5:
            ops.append(["t", draw(st.integers(0, n - 1)), draw(tm), draw(st.integers(0, 2))])
        elif k <= 7:
            ops.append(["b", draw(gen.picked(n, 1, 6))[:10 if huge else 10 ** 6]])
        else:
            ops.append(["c", draw(st.integers(0, n - 1))])
    if gen.rarely(draw, 8):
        ops.insert(draw(st.integers(0, len(ops))), draw(models.inflation(models.FACTORS + [10 ** 6, 2 ** 24, 2 ** 30, 2 ** 31])))
    if not huge and gen.rarely(draw, 40) and c["base"] ** c["addr"] > 2000:
        # thousands of different patterns in one RAM
        n = draw(st.sampled_from([300, 1100, 1500, 2100, 4200]))
        if c["base"] ** c["addr"] > 10 ** 6 and c["entry"] < 40 and gen.rarely(draw, 3):
            n = draw(st.sampled_from([10500, 33000, 66000]))
        ops.insert(draw(st.integers(0, len(ops))), ["f", draw(st.integers(0, 9999)), n])
    return {"cfg": c, "pool": pool, "ops": ops, "clock": draw(gen.clock), "single": draw(models.single())}


def bits(e):
    return all(v in (0, 1) for v in e)


class PROP:
    ID = "C01"
    BACKENDS = ["py", "py", "py", "py", "py", "src", "hdr", "hdr"]
    QUICK, THOROUGH = 4000, 60000
    QUICK_S = 30
    RULE = ("random configurations (bases 2..2^31-1, address sizes up to the 2^64 limit, random/incomplete/indexed/"
            "mapped addressing, ignoreZero) and learning histories (single entries, batches, packed inputs, "
            "1..70000 repetitions); every response is compared with reference counters keyed by observed values. "
            "Non-trivial: at least two different entries were learned, some response is above 1 and some RAM "
            "answers 0")

    @staticmethod
    def strategy(tier, backend):
        return case()

    @staticmethod
    def run(api, case, s):
        api = models.calls(api, case, s)
        c = case["cfg"]
        pool = case["pool"]
        s.clock(case["clock"])
        d = api.Discriminator(c["addr"], c["entry"], **gen.disc_kwargs(c))
        mapping = json.loads(d.json())["mapping"]
        ref = RefDisc(mapping, c["base"], c["ignoreZero"])
        learned = set()
        seen = {"hi": False, "zero": False}

        def ask(e):
            want = ref.votes(e)
            same(list(d.classify(e)), want, "responses to %r" % (e,))
            if bits(e):
                same(list(d.classify(api.BinInput(e))), want, "responses to packed %r" % (e,))
            if any(v > 1 for v in want):
                seen["hi"] = True
            if any(v == 0 for v in want) and learned:
                seen["zero"] = True

        full = False
        for op in case["ops"]:
            if full and op[0] in ("t", "b", "f"):
                continue    # the counts may be at their limit
            if op[0] == "t":
                e, t, how = pool[op[1]], op[2], op[3]
                if how == 1 or t > 300:
                    d.train([e] * t)
                elif how == 2 and bits(e):
                    b = api.BinInput(e)
                    for _ in range(t):
                        d.train(b)
                    s.event("packed")
                else:
                    for _ in range(t):
                        d.train(e)
                ref.train(e, t)
                learned.add(tuple(e))
                if t > 255:
                    s.event("many repetitions")
                if t > 32767:
                    s.event("above 16 bits")
            elif op[0] == "inflate":
                t = models.inflate("disc", d.json(), op)
                d = api.Discriminator(t)
                ref = models.ref_of(c, disc_content(json.loads(t)))
                s.event("inflated")
                full = any(v > 2 ** 30 for r in ref.rams for v in r.values())
            elif op[0] == "f":
                es = gen.flood(c, op[1], op[2])
                d.train(es)
                for e in es:
                    ref.train(e)
                for e in es[:5] + es[-20:] + es[::len(es) // 40]:
                    ask(e)
                s.event("thousands of patterns")
            elif op[0] == "b":
                d.train([pool[i] for i in op[1]])
                for i in op[1]:
                    ref.train(pool[i])
                    learned.add(tuple(pool[i]))
            else:
                ask(pool[op[1]])
        for i, e in enumerate(pool):
            ask(e)
            # neighbours of what was learned: one value changed
            if i < 10 and (c["entry"] <= 16 or i < 1):
                for p in range(min(c["entry"], 100 if c["entry"] < 5000 else 1)):
                    f = list(e)
                    f[p] = (f[p] + 1) % c["base"]
                    ask(f)
                    f[p] = c["base"] - 1
                    ask(f)
        check(json.loads(d.json())["mapping"] == mapping, "the addressing changed")
        s.event("mode " + c["mode"])
        if len(mapping) > 65536:
            s.event("more than 65536 RAMs")
        if c["base"] > 2:
            s.event("base > 2")
        if max(len(m) for m in mapping) * (c["base"].bit_length() - 1) >= 31:
            s.event("addresses beyond 31 bits")
        if c["ignoreZero"]:
            s.event("ignoreZero")
        s.size(learned, mapping)
        s.nontrivial = len(learned) >= 2 and seen["hi"] and seen["zero"]
