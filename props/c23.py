"""C23 Synthetic data reflect the mental image."""
import math

from hypothesis import strategies as st

from vlib import gen
from vlib.core import check, same


@st.composite
def case(draw):
    top = draw(st.one_of(st.integers(1, 5), st.integers(1, 30), st.sampled_from([100, 255, 256, 1000, 40000])))
    v = st.one_of(st.integers(0, top), st.integers(0, top), st.just(0), st.just(top), st.just(1))
    img = draw(st.lists(v, min_size=2, max_size=10))
    long = top <= 1000 and draw(st.integers(0, 29)) == 29
    if long:
        r = gen.rng(draw)
        img = [r.choice(img) for _ in range(r.choice([64, 65, 100, 128, 129, 256, 257, 300, 784, 784, 1025, 4097, 5003]))]
    if draw(st.integers(0, 19)) == 0:
        img = img[:draw(st.integers(0, 1))]
    elif draw(st.integers(0, 4)):
        img[draw(st.integers(0, len(img) - 1))] = top
    if draw(st.integers(0, 19)) == 13:
        img = [0] * len(img)
    if draw(st.integers(0, 11)) == 7:
        # positions far fainter than the brightest one, and draws enough to see them
        top = draw(st.integers(60, 1200))
        faint = st.integers(1, max(1, top // 60))
        img = draw(st.lists(st.one_of(faint, faint, st.just(1), st.just(top)), min_size=1, max_size=4)) + [top]
        n = min(40000, 45 * top // min(v for v in img))
        return {"image": draw(st.permutations(img)), "other": [], "draws": n, "clock": draw(gen.clock),
                "tick": draw(st.sampled_from([0, 0, 1]))}
    other = draw(st.lists(st.integers(0, 9), max_size=5))
    return {"image": img, "other": other, "draws": draw(st.sampled_from([60, 600] if long else [1, 5, 60, 600, 600, 2500])),
            "clock": draw(gen.clock), "tick": draw(st.sampled_from([0, 0, 0, 1, 40]))}


def kl(a, b):
    out = 0.0
    if a > 0:
        out += a * math.log(a / b)
    if a < 1:
        out += (1 - a) * math.log((1 - a) / (1 - b))
    return out


class PROP:
    ID = "C23"
    BACKENDS = ["py", "py", "py", "py", "py", "src", "hdr", "hdr"]
    QUICK, THOROUGH = 2400, 40000
    QUICK_S = 30
    RULE = ("mental images of 0..10 and some of up to 5003 positions with maxima 1..40000 and up to 2500 draws each, positions up to 1200 times fainter than the brightest with up to 40000 draws, the clock standing still or "
            "moving between draws, other synthesizers drawing in between: length, values, positions that must never / "
            "always be set, and each position's frequency against intensity / maximum with a Chernoff bound of 1e-12 for a "
            "false alarm. Non-trivial: at least 600 draws and a position strictly between 0 and the maximum")
    TECHNIQUE = "property-based testing (Hypothesis) with a statistical oracle"
    ASSUMPTIONS = ["intensities are not negative; proportions are decided up to what the number of draws can show"]

    @staticmethod
    def strategy(tier, backend):
        return case()

    @staticmethod
    def run(api, case, s):
        img = case["image"]
        t = case["clock"]
        s.clock(t)
        y = api.Synthesizer(img)
        z = api.Synthesizer(case["other"])
        top = max(img, default=0)
        n = case["draws"]
        hits = [0] * len(img)
        for k in range(n):
            if case["tick"]:
                t += case["tick"]
                s.clock(t)
            e = y.make()
            same(len(e), len(img), "length of a synthetic entry")
            for i, v in enumerate(e):
                if v == 1:
                    hits[i] += 1
                elif v != 0:
                    check(False, "value %r in a synthetic entry", v)
            if k < 50:
                o = z.make()
                same(len(o), len(case["other"]), "length of an entry of another synthesizer")
        for i, v in enumerate(img):
            if v == 0:
                same(hits[i], 0, "position %d has intensity 0 of %d; times set in %d draws" % (i, top, n))
            elif v == top:
                same(hits[i], n, "position %d has the maximum intensity; times set in %d draws" % (i, n))
            else:
                p = v / top
                a = hits[i] / n
                check(n * kl(a, p) < math.log(1e12), "position %d (intensity %d of %d) set in %d of %d draws", i, v, top,
                      hits[i], n)
                if n >= 600:
                    s.nontrivial = True
        s.event("all zero" if top == 0 else "draws >= 600" if n >= 600 else "few draws")
