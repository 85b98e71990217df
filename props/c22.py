"""C22 KernelCanvas activates the nearest kernels, as a fixed binary code."""
import math
import random

from hypothesis import strategies as st

from vlib.core import check, same


@st.composite
def case(draw, backend):
    dim = draw(st.one_of(*[st.integers(1, 5)] * 9, st.integers(6, 20)))
    if draw(st.integers(0, 99)) == 42:
        dim = draw(st.sampled_from([33, 70, 130, 200, 255, 256, 257, 300]))
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, 60), st.sampled_from([70, 100, 128, 129, 130, 257])))
    kw = {}
    if draw(st.integers(0, 3)):
        kw["bitsByKernel"] = draw(st.one_of(*[st.integers(1, 6)] * 9, st.sampled_from([7, 8, 9, 16, 31, 32, 33, 64, 65, 300])))
    if draw(st.integers(0, 4)):
        kw["activationDegree"] = draw(st.sampled_from([0.0, 1.0, 0.5, 0.5, 0.25, 0.125, 0.75, 0.1, 0.07, 0.03, 0.9, 0.2, 0.34]))
    if draw(st.integers(0, 3)) == 0:
        kw["useDirection"] = draw(st.booleans())
    kind = draw(st.sampled_from(["int", "int", "float", "dyadic"]))
    if kind == "int":
        v = st.one_of(st.integers(-5, 5), st.integers(-1000, 1000)).map(float)
    elif kind == "dyadic":
        v = st.integers(-4000, 4000).map(lambda k: k / 64.0)
    else:
        v = st.floats(-1000, 1000, allow_nan=False).map(lambda x: round(x, 3))
    seqs = []
    for _ in range(draw(st.integers(1, 3))):
        length = draw(st.sampled_from([0, 1, 2, 3, 4, 5, 8, 11] * 9 + [16, 20, 33, 64, 70]))
        if dim > 20:
            length = min(length, 3)
        const = [draw(st.integers(0, 5)) == 0 for _ in range(dim)]
        base = [float(draw(st.integers(-9, 9))) for _ in range(dim)]
        s = [[base[d] if const[d] else draw(v) for d in range(dim)] for _ in range(length)]
        if s and dim <= 5 and n <= 60 and draw(st.integers(0, 199)) == 101:
            # a long sequence
            r = random.Random(draw(st.integers(0, 9999)))
            s = [[v if const[d] else r.choice([v, float(r.randint(-9, 9)), r.randint(-999, 999) / 8.0]) for d, v in enumerate(s[0])]
                 for _ in range(r.choice([127, 130, 257, 300, 513, 1025]))]
        if s and draw(st.integers(0, 3)) == 0:
            s.append(list(s[draw(st.integers(0, len(s) - 1))]))
        seqs.append(s)
    return {"dim": dim, "n": n, "kw": kw, "seqs": seqs, "clock": draw(st.integers(0, 2 ** 31 - 1)),
            "scale": draw(st.integers(-20, 20)), "shift": draw(st.integers(-64, 64)),
            "many": draw(st.sampled_from([12, 40, 70, 130, 270, 1030])) if draw(st.integers(0, 59)) == 31 else 0,
            "perm": draw(st.randoms(use_true_random=False)).randrange(1 << 30), "cpp": draw(st.booleans())}


def stats(seq, dim):
    n = len(seq)
    means, stds = [], []
    for d in range(dim):
        t = 0.0
        for p in seq:
            t += p[d]
        means.append(t / n)
    for d in range(dim):
        t = 0.0
        for p in seq:
            t += (means[d] - p[d]) ** 2
        stds.append(math.sqrt(t / n))
    return means, stds


def constant(seq, d):
    return len({p[d] for p in seq}) == 1


class PROP:
    ID = "C22"
    BACKENDS = ["py", "src", "hdr", "py", "src", "src", "hdr", "py"]
    QUICK, THOROUGH = 3500, 80000
    QUICK_S = 30
    RULE = ("canvases of 1..20 (rarely up to 300) dimensions and 1..257 kernels with all options, sequences of 0..12 (rarely up to 1025) points (constant "
            "coordinates, repeated points), one canvas used for many; shape, blocks, number of active kernels, repeatability across calls, invariance "
            "under power-of-two rescaling (and shifts where exact), point order and repetition of the sequence; in the C++ "
            "API, where the kernels can be read, the exact set of kernels by brute-force nearest search. Non-trivial: at "
            "least two different points, and some but not all kernels active")
    TECHNIQUE = "property-based testing (Hypothesis): metamorphic relations and a brute-force nearest-kernel reference"
    ASSUMPTIONS = ["kernels whose distances differ by less than 1e-9 may swap; round() of a half goes up, unless the degree is not exact in a float: then it "
                   "may go either way",
                   "with useDirection the vector of a point holds its coordinates, the unit directions to the next point in the "
                   "plane of each two neighbouring coordinates (the last point repeats them), and the same of its two "
                   "predecessors (the first point stands for missing ones)"]

    @staticmethod
    def strategy(tier, backend):
        return case(backend)

    @staticmethod
    def run(api, case, s):
        dim, n, kw = case["dim"], case["n"], case["kw"]
        s.clock(case["clock"])
        cls = api.KernelCanvas
        if hasattr(api, "PyKernelCanvas") and not case["cpp"]:
            cls = api.PyKernelCanvas
        k = cls(dim, n, **kw)
        bits = kw.get("bitsByKernel", 3)
        degree = kw.get("activationDegree", 0.07)
        direction = kw.get("useDirection", False)
        exact = degree * n
        act = {math.floor(exact + 0.5)}
        if abs(exact - math.floor(exact) - 0.5) < 1e-4 and degree * 64 != int(degree * 64):
            act = {math.floor(exact), math.ceil(exact)}

        def code(seq):
            out = k.transform(seq)
            same(len(out), n * bits, "length of the code of %r" % seq)
            check(all(v in (0, 1) for v in out), "values of the code %r", out)
            active = []
            for i in range(n):
                b = out[i * bits:(i + 1) * bits]
                check(len(set(b)) == 1, "block of kernel %d is %r", i, b)
                if b[0]:
                    active.append(i)
            return active

        kernels = None
        if hasattr(k, "kernels"):
            try:
                kernels = k.kernels()
                if not (isinstance(kernels, list) and len(kernels) == n
                        and all(isinstance(x, list) and len(x) == (9 * dim - 6 if direction else dim) for x in kernels)):
                    kernels = None
            except (RuntimeError, TypeError, ValueError):
                kernels = None
        first = []
        for seq in case["seqs"]:
            a = code(seq)
            first.append(a)
            points = len({tuple(p) for p in seq})
            if not seq:
                same(a, [], "kernels active for no points")
                continue
            check(min(act) <= len(a) <= max(act) * (len(seq) if direction else points),
                  "%d of %d kernels active for %d points, each activates %r", len(a), n, points, sorted(act))
            if len(seq) == 1:
                check(len(a) in act, "%d kernels active for one point, expected %r", len(a), sorted(act))
            same(code([list(p) for p in seq]), a, "the same sequence again")
            scale = 2.0 ** case["scale"]
            same(code([[v * scale for v in p] for p in seq]), a, "the sequence times %r" % scale)
            ints = all(v * 64 == int(v * 64) for p in seq for v in p)
            clean = all(v == int(v) or not constant(seq, d) for p in seq for d, v in enumerate(p))
            if len(seq) in (1, 2, 4, 8) and ints:
                same(code([[v + case["shift"] for v in p] for p in seq]), a, "the sequence plus %d" % case["shift"])
                s.event("shifted")
            if not direction and clean:
                other = list(seq)
                random.Random(case["perm"]).shuffle(other)
                same(code(other), a, "the points in another order")
                same(code(seq + seq), a, "the sequence twice")
                same(code(seq + seq[::-1]), a, "the sequence and back")
                s.event("reordered")
            if direction:
                s.event("with direction")
            if kernels is not None and clean:
                check(all(-1 <= x <= 1 for q in kernels for x in q), "kernels outside -1..1")
                must, may = nearest(kernels, vectors(seq, dim, direction), act)
                check(set(a) >= must and set(a) <= may, "kernels %r active for %r, the nearest are %r", a, seq, sorted(must))
                s.event("nearest kernels checked, with direction" if direction else "nearest kernels checked")
            if points > 1 and 0 < len(a) < n:
                s.nontrivial = True
        same([code(q) for q in case["seqs"]], first, "all sequences again")
        if case.get("many"):
            short = [(q, a) for q, a in zip(case["seqs"], first) if len(q) < 20]
            for i in range(min(case["many"], 10 ** 6 // (n * bits * dim)) if short else 0):
                q, a = short[i % len(short)]
                same(code(q), a, "sequence %d once more, call %d" % (i % len(short), i + 1))
            s.event("dozens to thousands of calls")
        if kernels is not None:
            same(k.kernels(), kernels, "kernels after transforming")


def vectors(seq, dim, direction):
    """The vectors that are compared with the kernels, one for each point."""
    means, stds = stats(seq, dim)
    norm = [[math.tanh((means[d] - p[d]) / stds[d]) if stds[d] > 0 else 0.0 for d in range(dim)] for p in seq]
    if not direction:
        return norm
    # each point with the directions to the next one, then its two predecessors
    rows, way = [], [0.0] * (2 * (dim - 1))
    for i, p in enumerate(norm):
        if i + 1 < len(norm):
            way = []
            for j in range(1, dim):
                x, y = norm[i + 1][j - 1] - p[j - 1], norm[i + 1][j] - p[j]
                h = math.sqrt(x * x + y * y)
                way += [x / h, y / h] if h > 0 else [0.0, 0.0]
        rows.append(p + way)
    return [rows[i] + rows[max(0, i - 1)] + rows[max(0, i - 2)] for i in range(len(rows))]


def nearest(kernels, points, act):
    """(kernels that must be active, kernels that may be)."""
    must, may = set(), set()
    for q in points:
        ds = sorted((math.sqrt(sum((a - b) ** 2 for a, b in zip(q, x))), i) for i, x in enumerate(kernels))
        for n in act:
            sure = set()
            if n:
                edge = ds[n - 1][0]
                after = ds[n][0] if n < len(ds) else math.inf
                for dist, i in ds:
                    if dist < edge + 1e-9:
                        may.add(i)
                    if dist < after - 1e-9 and dist <= edge:
                        sure.add(i)
            if n == min(act):
                must |= sure
    return must, may
