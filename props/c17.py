"""C17 BinInput is an exact fixed-size bit vector."""
import random

from hypothesis import strategies as st

from vlib.core import check, refused, same

BIG = [2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 35, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, -1, -2,
       -2 ** 31, -2 ** 63]


@st.composite
def case(draw):
    n = draw(st.one_of(st.integers(0, 20), st.integers(0, 70), st.sampled_from([127, 128, 129, 255, 256, 257, 1000, 5000])))
    if draw(st.integers(0, 149)) == 149:
        n = draw(st.sampled_from([32767, 32768, 65535, 65536, 65537, 65540, 70000]))
    if draw(st.integers(0, 399)) == 201:
        n = draw(st.sampled_from([524287, 524289, 600000, 1048577, 2097155]))
    how = draw(st.sampled_from(["list", "list", "size", "data"]))
    if n > 70 and n < 30000:
        v = draw(st.integers(0, 2 ** 64 - 1))
        bits = [(v >> (i % 61)) & 1 for i in range(n)]
    elif n > 70:
        bits = n     # every third bit (see bits_of)
    else:
        bits = draw(st.lists(st.integers(0, 1), min_size=n, max_size=n))
    if how == "size":
        bits = [0] * n if n < 30000 else n
    ops = []
    index = st.one_of(st.integers(0, max(0, n - 1)), st.integers(0, max(0, n - 1)), st.integers(0, n + 9),
                      st.integers(0, 7).map(lambda k: n + k), st.sampled_from(BIG))
    for _ in range(draw(st.integers(1, 14 if n < 30000 else 4))):
        k = draw(st.sampled_from(["set", "set", "set", "get", "item", "again", "again2"] + ["fill"] * (n < 6000)))
        if k == "set":
            ops.append([k, draw(index), draw(st.sampled_from([0, 1, 0, 1, 1, 0, 2, 3, -1, 255, 256, 2 ** 31 - 1, -2 ** 31]))])
        elif k in ("get", "item"):
            ops.append([k, draw(index)])
        elif k == "fill":
            ops.append([k, draw(st.integers(1, 7)), draw(st.integers(1, 3)), draw(st.booleans())])
        else:
            ops.append([k])
    if 0 < n < 6000 and draw(st.integers(0, 39)) == 23:
        ops.insert(draw(st.integers(0, len(ops))), ["burst", draw(st.integers(0, 9999)), draw(st.sampled_from(
            [40, 70, 130, 260, 300, 1000, 1030, 5000]))])
    return {"how": how, "bits": bits, "ops": ops}


def bits_of(case):
    b = case["bits"]
    if isinstance(b, int):
        return [0] * b if case["how"] == "size" else [1 if i % 3 == 0 else 0 for i in range(b)]
    return list(b)


def make(api, how, bits):
    if how == "size":
        return api.BinInput(len(bits))
    b = api.BinInput(bits)
    return api.BinInput(b.data()) if how == "data" else b


class PROP:
    ID = "C17"
    BACKENDS = ["py", "py", "py", "py", "py", "src", "hdr", "hdr"]
    QUICK, THOROUGH = 4000, 100000
    QUICK_S = 30
    RULE = ("vectors of 0..5000 bits built from a list, a size or data(), then random set/get/[]/reconstruct operations "
            "with indexes inside (including every bit, several times, in "
            "both directions), just past the end (inside the last byte's padding) and far outside; after each one all "
            "bits are compared with a Python list. A set with a value other than 0 or 1 may write either bit, but only "
            "its own. Non-trivial: at least one bit was set and one operation was out of range or a reconstruction")
    ASSUMPTIONS = ["the value written by set(i, v) for v other than 0 and 1 is unspecified"]

    @staticmethod
    def strategy(tier, backend):
        return case()

    @staticmethod
    def run(api, case, s):
        model = bits_of(case)
        b = make(api, case["how"], model)
        n = len(model)

        touched = {0, n - 1}

        def whole(what):
            same(b.size(), n, "size after %s" % what)
            if n > 500000:
                # a sample: around what was touched, and at distances of powers of two from there
                at = {i + (sign << k) + d for i in touched for k in range(21) for sign in (1, -1) for d in (-1, 0, 1)}
                at = sorted(i for i in at | set(range(0, n, 997)) if 0 <= i < n)
                same([b.get(i) for i in at], [model[i] for i in at], "bits after %s" % what)
                s.event("more than 500000 bits")
                return
            same([b.get(i) for i in range(n)], model, "bits after %s" % what)
            if n > 30000:
                s.event("more than 30000 bits")
            if n <= 300:
                same([b[i] for i in range(n)], model, "[] after %s" % what)

        whole("construction from " + case["how"])
        wrote = odd = False
        for op in case["ops"]:
            if op[0] == "set":
                i, v = op[1], op[2]
                if 0 <= i < n:
                    touched.add(i)
                    b.set(i, v)
                    if v in (0, 1):
                        model[i] = v
                        wrote = True
                    else:
                        got = b.get(i)
                        check(got in (0, 1), "bit %d is %r after set(%d, %d)", i, got, i, v)
                        model[i] = got
                else:
                    check(refused(b.set, i, v), "set(%d, %d) is accepted with size %d", i, v, n)
                    odd = True
                    s.event("set out of range")
            elif op[0] == "fill":
                # every bit, maybe twice, maybe from the end
                for i in range(n):
                    model[i] = 1 if i % op[1] < op[2] else 0
                for _ in range(op[2]):
                    for i in (range(n - 1, -1, -1) if op[3] else range(n)):
                        b.set(i, model[i])
                wrote = wrote or n > 0
            elif op[0] == "burst":
                # many single writes, in any order, with reads in between
                r = random.Random(op[1])
                for k in range(op[2]):
                    i = r.randrange(n)
                    v = r.randrange(2)
                    b.set(i, v)
                    model[i] = v
                    j = r.choice([i, (i + 1) % n, r.randrange(n)])
                    same(b.get(j), model[j], "bit %d after %d writes" % (j, k + 1))
                s.event("dozens to thousands of writes")
            elif op[0] in ("get", "item"):
                i = op[1]
                f = b.get if op[0] == "get" else b.__getitem__
                if 0 <= i < n:
                    same(f(i), model[i], "%s(%d)" % (op[0], i))
                else:
                    check(refused(f, i), "%s(%d) is accepted with size %d", op[0], i, n)
                    odd = True
            else:
                t = b.data()
                b2 = api.BinInput(t)
                same(b2.data(), t, "data() of a reconstruction")
                if op[0] == "again":
                    b = b2
                else:
                    same([b2.get(i) for i in range(b2.size())], model, "bits of a reconstruction")
                odd = True
                s.event("reconstructed")
            whole(str(op))
        if n > 500000:
            same(api.BinInput(model).data() == b.data(), True, "data() equal to that of the same list")
        s.nontrivial = wrote and odd
        if n % 8:
            s.event("size not a multiple of 8")
        if n == 0:
            s.event("empty")
