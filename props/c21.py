"""C21 RAMDataHandle reads and edits saved RAM contents faithfully."""
import base64
import os
import random
import struct

from hypothesis import strategies as st

from vlib import ref
from vlib.core import check, refused, same

ADDR = st.one_of(st.integers(0, 12), st.integers(0, 12), st.integers(0, 2 ** 64 - 1),
                 st.sampled_from([2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 63, 2 ** 64 - 1, 255, 256]))
COUNT = st.one_of(st.integers(1, 9), st.integers(1, 9), st.integers(-2 ** 31, 2 ** 31 - 1),
                  st.sampled_from([127, 128, 255, 256, 32768, 65536, 2 ** 31 - 1, -1, -2 ** 31]))


@st.composite
def rams(draw):
    if draw(st.integers(0, 799)) == 401:
        # one RAM with more patterns than 16 bits count
        r = random.Random(draw(st.integers(0, 2 ** 32 - 1)))
        out = [[[a, 1 + a % 9] for a in r.sample(range(2 ** 20), r.choice([33000, 65535, 65536, 66000]))]]
        return out + [[[5, 6]]] if r.randint(0, 1) else out
    if draw(st.integers(0, 39)) == 39:
        r = random.Random(draw(st.integers(0, 2 ** 32 - 1)))
        n = r.choice([1, 2, 3, 9, 33, 64, 65, 130, 257])
        if draw(st.integers(0, 19)) == 11:
            n = r.choice([999, 1024, 1025, 2000, 4097, 33000, 65537])
            out = [[] for _ in range(n)]
            for i in [0, n - 1] + [r.randrange(n) for _ in range(10)]:
                out[i] = [[a, r.randint(1, 999)] for a in {r.randint(0, 99) for _ in range(3)}]
            return out
        out = []
        for _ in range(n):
            k = r.randint(0, min(300, 3000 // n))
            top = r.choice([64, 1000, 2 ** 16, 2 ** 32, 2 ** 64 - 1])
            out.append([[a, r.randint(1, 2 ** r.randint(1, 31) - 1)] for a in {r.randint(0, max(top, 2 * k)) for _ in range(k)}])
        return out
    n = draw(st.integers(1, 5))
    return [draw(st.lists(st.tuples(ADDR, st.one_of(COUNT, COUNT, COUNT, st.integers(0, 1))).map(list), max_size=6, unique_by=lambda t: t[0]))
            for _ in range(n)]


@st.composite
def case(draw):
    a = draw(rams())
    known = [t[0] for r in a for t in r][:40] or [0]
    addr = st.one_of(st.sampled_from(known), st.sampled_from(known), ADDR)
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.sampled_from(["set", "set", "get", "ram", "data", "part", "again", "absent", "out", "append"]))
        if (len(a) > 500 or len(a[0]) > 30000) and len(ops) > 2:
            break
        ops.append([k, draw(st.integers(0, 5 if len(a) < 9 else len(a) + 9)), draw(addr), draw(st.one_of(COUNT, COUNT, COUNT, st.integers(0, 1)))])
    if len(a) < 70 and len(a[0]) < 9999 and draw(st.integers(0, 39)) == 23:
        ops.insert(draw(st.integers(0, len(ops))), ["burst", draw(st.integers(0, 9999)), draw(st.sampled_from(
            [8, 64, 10 ** 4, 2 ** 33])), draw(st.sampled_from([40, 70, 130, 260, 300, 1000, 1030, 3000]))])
    how = draw(st.sampled_from(["text", "text", "text", "file"]))
    b = a if draw(st.integers(0, 2)) == 0 else draw(rams())
    if draw(st.integers(0, 2)) == 0:
        # a near copy
        b = [[list(t) for t in r] for r in a]
        r = draw(st.integers(0, len(b) - 1))
        w = draw(st.sampled_from(["value", "drop", "add", "ram", "address"]))
        if w == "ram":
            b.append([])
        elif w == "add":
            x = draw(ADDR)
            if all(t[0] != x for t in b[r]):
                b[r].append([x, draw(COUNT.filter(bool))])
        elif b[r]:
            i = draw(st.integers(0, len(b[r]) - 1))
            if w == "value":
                v = b[r][i][1] ^ draw(st.sampled_from([1, 1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 24, 1 << 30]))
                b[r][i][1] = v if v and -2 ** 31 <= v < 2 ** 31 else b[r][i][1] ^ 3 or 2
            elif w == "drop":
                del b[r][i]
            else:
                x = b[r][i][0] ^ draw(st.sampled_from([1, 2 ** 31, 2 ** 32, 2 ** 63]))
                if all(t[0] != x for t in b[r]):
                    b[r][i][0] = x
    return {"rams": a, "other": b, "ops": ops, "how": how, "mix": draw(st.integers(0, 99)),
            "model": draw(st.lists(st.integers(0, 63), max_size=5))}


def text(ds, mix=0):
    out = []
    for d in ds:
        items = list(d.items())
        random.Random(mix).shuffle(items)
        out.append(base64.b64encode(b"".join(struct.pack("<Qi", a, v) for a, v in items)).decode())
    return ".".join(out)


def parse(t):
    return [ref.decode_ram(p) for p in t.split(".")]


class PROP:
    ID = "C21"
    BACKENDS = ["py", "py", "py", "py", "py", "src", "hdr", "hdr"]
    QUICK, THOROUGH = 3500, 80000
    QUICK_S = 30
    RULE = ("handles over 1..5 RAMs (rarely up to 65537) built from text, file or a Discriminator's saved data, with any 64-bit addresses and "
            "32-bit counts; random set / get / whole RAM / data / rebuild operations checked against dictionaries after "
            "every step (contents via data() decoded by Python in the documented format), compare checked in both "
            "directions against equality of the dictionaries, also for near copies. Non-trivial: at least two stored "
            "pairs and one set, and an address above 2^32 or at least two RAMs")
    ASSUMPTIONS = ["a single count of zero reads like an absent address; whether compare tells them apart is left open"]

    @staticmethod
    def strategy(tier, backend):
        return case()

    @staticmethod
    def run(api, case, s):
        model = [dict((a, v) for a, v in r) for r in case["rams"]]
        t = text(model, case["mix"])

        def build(t):
            if case["how"] == "file":
                p = os.path.join(s.tmp(), "f%d.wdpkg" % len(os.listdir(s.tmp())))
                with open(p, "w") as fh:
                    fh.write(t)
                h = api.RAMDataHandle(p)
                os.unlink(p)
                return h
            return api.RAMDataHandle(t)

        if case["how"] == "file":
            s.event("from a file")
        h = build(t)
        if len(model) > 20 or any(len(r) > 50 for r in model):
            s.event("large contents")

        def whole(what, h=h, model=model):
            got = h.data()
            same(parse(got), model, "data() after %s" % what)
            same([dict(h.get(r)) for r in range(len(model))], model, "RAMs after %s" % what)

        whole("construction")
        sets = 0
        for k, r, a, v in case["ops"]:
            if k == "set":
                r %= len(model)
                h.set(r, a, v)
                model[r][a] = v
                sets += 1
            elif k == "burst":
                q = random.Random(r)
                for i in range(v):
                    x, y = q.randrange(len(model)), q.randrange(a)
                    z = q.choice([1, 2, 3, 0, q.randrange(1, 2 ** 31)])
                    h.set(x, y, z)
                    model[x][y] = z
                    y = q.choice([y, q.randrange(a)])
                    same(h.get(x, y), model[x].get(y, 0), "count at %d of RAM %d after %d edits" % (y, x, i + 1))
                sets += v
                s.event("dozens to thousands of edits")
            elif k == "append":
                # one past the last RAM: a new RAM, or refused; never anything else
                n = len(model)
                if not refused(h.set, n, a, v):
                    model.append({a: v})
                    s.event("appended a RAM")
            elif k == "get":
                r %= len(model)
                same(h.get(r, a), model[r].get(a, 0), "count at %d of RAM %d" % (a, r))
            elif k == "ram":
                r %= len(model)
                d = h.get(r)
                same(dict(d), model[r], "RAM %d" % r)
                d[a] = v + 1 if v < 2 ** 31 - 1 else 5
            elif k == "data":
                h.data()
                same([ref.decode_ram(h.data(i)) for i in range(len(model))], model, "data(r)")
            elif k == "part":
                r %= len(model)
                p = api.RAMDataHandle(h.data(r))
                same(dict(p.get(0)), model[r], "handle over data(%d)" % r)
            elif k == "again":
                n = build(h.data())
                check(n.compare(h) and h.compare(n), "a handle over data() of another compares different")
                h = n
            elif k == "absent":
                r %= len(model)
                b = [x for x in (a ^ 1, a ^ (1 << 32), a ^ (1 << 63)) if x not in model[r]]
                same([h.get(r, x) for x in b], [0] * len(b), "absent addresses")
            else:
                for x in (-1, len(model) + 1, len(model) + 100, 2 ** 31 - 1, -2 ** 31):
                    check(refused(h.get, x), "RAM %d of %d exists", x, len(model))
                    check(refused(h.get, x, a), "RAM %d of %d has a count", x, len(model))
                    check(refused(h.data, x), "RAM %d of %d has data", x, len(model))
                    check(refused(h.set, x, a, v), "RAM %d of %d can be set", x, len(model))
            whole(k, h, model)
        # comparison
        m2 = [dict((a, v) for a, v in r) for r in case["other"]]
        h1, h2 = api.RAMDataHandle(t), api.RAMDataHandle(text(m2, case["mix"] + 1))
        m1 = [dict((a, v) for a, v in r) for r in case["rams"]]
        nz = [[ref.nonzero(d) for d in m] for m in (m1, m2)]
        if m1 == m2 or nz[0] != nz[1]:
            same((h1.compare(h2), h2.compare(h1)), (m1 == m2, m1 == m2), "compare of %r and %r" % (m1, m2))
        same(h1.compare(h1), True, "compare with itself")
        same((parse(h1.data()), parse(h2.data())), (m1, m2), "contents after comparing")
        s.event("equal" if m1 == m2 else "different")
        if case["model"]:
            PROP.model(api, case["model"], s)
        if hasattr(h, "save"):
            p = os.path.join(s.tmp(), "saved")
            h.save(p)
            n = api.RAMDataHandle(p + ".wdpkg")
            same(parse(n.data()), model, "handle over its own saved file")
            n = api.RAMDataHandle(model[0])
            same(parse(n.data()), model[:1], "handle over one RAM")
        s.nontrivial = sum(len(d) for d in model) > 1 and sets > 0 and \
            (len(model) > 1 or any(a >> 32 for d in model for a in d))

    @staticmethod
    def model(api, seed, s):
        """the data of a real discriminator"""
        import json
        d = api.Discriminator(3, 6)
        es = [[x >> i & 1 for i in range(6)] for x in seed]
        for e in es:
            d.train(e)
        j = json.loads(d.json())
        h = api.RAMDataHandle(j["data"])
        for r, m in enumerate(j["mapping"]):
            want = {}
            for e in es:
                a = sum(e[p] << i for i, p in enumerate(m))
                want[a] = want.get(a, 0) + 1
            same(dict(h.get(r)), want, "RAM %d of a saved discriminator" % r)
        # an edited RAM changes the responses of the model exactly there
        a = sum(es[0][p] << i for i, p in enumerate(j["mapping"][0]))
        h.set(0, a, 77)
        j["data"] = h.data()
        e = api.Discriminator(json.dumps(j))
        want = list(d.classify(es[0]))
        want[0] = 77
        same(list(e.classify(es[0])), want, "responses after editing one count")
        s.event("edited a model")
