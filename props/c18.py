"""C18 DataSet keeps entries and labels in order and survives a file round-trip."""
import os

from hypothesis import strategies as st

from vlib import gen
from vlib.core import check, refused, same

OUT = [-1, -2, -2 ** 31, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64 - 1]


@st.composite
def case(draw):
    labs = draw(gen.labels(1, 5, deep=True)) + ["", None]
    entry = st.one_of(*[st.lists(st.integers(0, 1), max_size=20), st.integers(0, 40).map(lambda n: [0] * n),
                        st.integers(0, 40).map(lambda n: [1] * n)] * 5,
                      st.tuples(st.sampled_from([63, 64, 65, 127, 128, 255, 256, 257, 520, 784, 2048, 2056]),
                                st.integers(2, 9)).map(lambda t: [1 if i % t[1] == 0 else 0 for i in range(t[0])]))
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.sampled_from(["add"] * 5 + ["save", "save", "load", "many", "out"]))
        if k == "add":
            ops.append([k, draw(entry), draw(st.sampled_from(labs)), draw(st.booleans())])
        elif k == "many":
            ops.append([k, draw(entry), draw(st.sampled_from(labs)), draw(st.sampled_from([3, 10, 40, 300])), draw(st.booleans())])
        elif k == "save":
            ops.append([k, draw(st.integers(0, 2))])
        elif k == "load":
            ops.append([k, draw(st.integers(0, 2)), draw(st.booleans())])
        else:
            ops.append([k, draw(st.sampled_from(OUT + [0, 1, 2])), draw(st.booleans())])
    if draw(st.integers(0, 59)) == 31:
        # saved and loaded, over and over
        ops = [o for o in ops if o[0] != "many"]
        ops += [["again", draw(entry), draw(st.sampled_from(labs)), draw(st.sampled_from([12, 20, 40, 70, 130, 270])), draw(st.booleans())]]
    if draw(st.integers(0, 299)) == 101:
        ops = ops[:5]
        ops.insert(draw(st.integers(0, len(ops))), ["many", draw(st.lists(st.integers(0, 1), max_size=3)),
                                                    draw(st.sampled_from(labs)), 65540])
    return {"ops": ops, "names": draw(st.permutations(["d", "e.wpkds", "d.x", "\u00e9 a", "sub/d"]))[:3]}


def bits_of(b):
    return [b.get(i) for i in range(b.size())]


class PROP:
    ID = "C18"
    BACKENDS = ["py", "py", "py", "py", "py", "src", "hdr", "hdr"]
    QUICK, THOROUGH = 3500, 80000
    QUICK_S = 30
    RULE = ("histories of add (lists and BinInputs, with and without label, sizes 0..40, up to thousands of entries, rarely more than 65536), save "
            "under a few names, load and go on (also hundreds of times in a row); entries, labels and order are compared with a Python list after every "
            "operation, every file with the set at its last save; out-of-range indexes and unwritable files must raise. "
            "Non-trivial: a loaded file held at least two entries, one with and one without label")

    @staticmethod
    def strategy(tier, backend):
        return case()

    @staticmethod
    def run(api, case, s):
        root = s.tmp()
        os.mkdir(os.path.join(root, "sub"))
        names = [os.path.join(root, n) for n in case["names"]]
        ds = api.DataSet()
        model = []
        files = {}

        def whole(d, want, what, every=1):
            same(d.size(), len(want), "size " + what)
            for i, (e, l) in enumerate(want):
                if every > 1 and i % every and 3 < i < len(want) - 5:
                    continue
                same(bits_of(d.get(i)), e, "entry %d %s" % (i, what))
                if l:
                    same(d.getLabel(i), l, "label %d %s" % (i, what))
                else:
                    check(refused(d.getLabel, i), "entry %d without label has the label %r %s", i,
                          None if refused(d.getLabel, i) else d.getLabel(i), what)

        def loaded(k):
            want = files[k]
            d = api.DataSet(names[k] + ".wpkds")
            whole(d, want, "after loading", 1 if len(want) < 9999 else 97)
            if len(want) > 1 and len({bool(l) for _, l in want}) == 2:
                s.nontrivial = True
            return d, want

        for op in case["ops"]:
            if op[0] in ("add", "many"):
                e, l = op[1], op[2]
                n = op[3] if op[0] == "many" else 1
                for i in range(n):
                    if (len(op) < 5 or op[4]) if op[0] == "many" else op[3]:
                        b = api.BinInput(e) if e else api.BinInput(0)
                        ds.add(b) if l is None else ds.add(b, l)
                        if e and i == 0:
                            b.set(0, 1 - e[0])
                    else:
                        ds.add(e) if l is None else ds.add(e, l)
                    model.append((e, l))
            elif op[0] == "save":
                ds.save(names[op[1]])
                files[op[1]] = list(model)
                check(os.path.exists(names[op[1]] + ".wpkds"), "no file after saving")
                if len(model) == 0:
                    s.event("saved empty")
            elif op[0] == "again":
                e, l = op[1], op[2]
                for i in range(op[3]):
                    if i % 3 == 0:
                        ds.add(e) if l is None else ds.add(e, l)
                        model.append((e, l))
                    ds.save(names[0])
                    d = api.DataSet(names[0] + ".wpkds")
                    whole(d, model, "after %d saves" % (i + 1), 1 if len(model) < 12 else 9)
                    if op[4]:
                        ds = d
                files[0] = list(model)
                s.event("dozens or hundreds of saves")
            elif op[0] == "load":
                if op[1] in files:
                    d, want = loaded(op[1])
                    if op[2]:
                        ds, model = d, list(want)
                        s.event("went on with a loaded set")
            else:
                i = op[1]
                for f in (ds.get, ds.getLabel):
                    if not 0 <= i < len(model):
                        check(refused(f, i), "%s(%d) is accepted with %d entries", f.__name__, i, len(model))
                        s.event("out of range")
                if op[2]:
                    check(refused(ds.save, os.path.join(root, "no/such/d")), "saving into a missing folder is not an error")
                    check(refused(api.DataSet, os.path.join(root, "no suffix")), "a file of another type is accepted")
            whole(ds, model, "after %s" % op[0], 1 if len(model) < 60 else 13 if len(model) < 9999 else 997)
        for k in files:
            loaded(k)
        if len(model) > 256:
            s.event("more than 256 entries")
        if len(model) > 65536:
            s.event("more than 65536 entries")
