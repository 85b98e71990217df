"""C13 Semi-supervised training learns each entry exactly once, labelled first."""
from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import check, refused, same


@st.composite
def case(draw):
    many = draw(st.integers(0, 9)) == 4
    c = draw(models.clus_cfg(max_entry=12, nlab=(2, 4), nasty=draw(st.integers(0, 4)) == 0))
    if many:
        c["labels"] = ["%d" % i for i in range(draw(st.integers(9, 14)))]
    pool = draw(gen.entries(c["base"], c["entry"], 2, 8))
    n = len(c["labels"])
    label = st.integers(0, n - 1)
    calls = []
    if many or draw(st.integers(0, 2)) == 0:
        es = [i % len(pool) for i in range(n)]
        calls.append(["sup", draw(st.permutations(es)), []])
    for _ in range(draw(st.integers(1, 4))):
        es = draw(gen.picked(len(pool), 1, 8, 1025))
        kind = draw(st.sampled_from(["semi", "semi", "semi", "sup", "unsup"]))
        if draw(st.integers(0, 3)):
            keys = draw(st.lists(st.integers(0, len(es) - 1), min_size=1, max_size=max(1, len(es) - 1), unique=True))
            if len(keys) < len(es) and draw(st.integers(0, 3)) == 0:
                keys.append(draw(st.sampled_from([-1, len(es), len(es) + 1, 2 ** 31 - 1, -2 ** 31])))
        else:
            keys = draw(st.lists(st.one_of(st.integers(0, len(es) - 1), st.integers(-3, len(es) + 3),
                                           st.sampled_from([-2 ** 31, 2 ** 31 - 1, 100000])), min_size=0,
                                 max_size=len(es) + 1, unique=True))
        calls.append([kind, es, [[k, draw(label)] for k in keys]])
    if len(pool) < 20 and c["limit"] <= 100 and draw(st.integers(0, 99)) == 57:
        # many calls
        calls = [[k, es[:8], [x for x in lab if x[0] < 8 or x[0] >= len(es)]] for k, es, lab in calls] * draw(
            st.sampled_from([5, 12, 20, 40]))
    return {"cfg": c, "pool": pool, "calls": calls, "clock": draw(gen.clock), "single": draw(models.single())}


class PROP:
    ID = "C13"
    BACKENDS = ["py", "py", "py", "py", "py", "src", "hdr", "hdr"]
    QUICK, THOROUGH = 2800, 50000
    QUICK_S = 35
    RULE = ("histories of semi-supervised calls (dictionaries with keys inside and outside the input positions, none, too "
            "many) mixed with supervised and unsupervised ones; the saved clusters after each call must be a result of "
            "learning the labelled entries in order and then each other entry under the class the reference decision "
            "gives at that moment (ties and float rounding branch); refused calls must leave the content unchanged. "
            "Non-trivial: an accepted call with at least one labelled and one unlabelled entry and two classes")
    ASSUMPTIONS = ["float rounding: scores within 1e-5 of a limit may fall on either side"]

    @staticmethod
    def strategy(tier, backend):
        return case()

    @staticmethod
    def run(api, case, s):
        api = models.calls(api, case, s)
        c, pool, labels = case["cfg"], case["pool"], case["cfg"]["labels"]
        s.clock(case["clock"])
        m = models.make_clus(api, c)
        for kind, es, lab in case["calls"]:
            x = [pool[e] for e in es[:400 if c["limit"] > 100 else None]]
            before = ref.cluswisard_content(m.json())
            if kind == "sup":
                m.train(x, [labels[i % len(labels)] for i in range(len(x))])
                continue
            if kind == "unsup":
                m.trainUnsupervised(x)
                same(ref.cluswisard_content(m.json())[1], before[1], "classes after unsupervised training")
                continue
            d = {k: labels[l] for k, l in lab}
            inside = {k: l for k, l in d.items() if 0 <= k < len(x)}
            # an empty list of labels and an empty dictionary cannot be told apart by the binding
            if not inside or len(d) > len(x):
                if len(d) > 0:
                    check(refused(m.train, x, d), "labels %r for %d entries are accepted", d, len(x))
                    same(ref.cluswisard_content(m.json()), before, "content after a refused call")
                    s.event("refused")
                continue
            given = dict(d)
            m.train(x, d)
            same(d, given, "the dictionary given")
            after = ref.cluswisard_content(m.json())
            same(after[0], before[0], "options")
            same(after[2], before[2], "unsupervised cluster")
            ok, amb = simulate(c, before[1], x, inside, after[1], 200 if len(x) < 40 else 20)
            check(ok, "semi-supervised training of %r with %r: from %r to %r", x, inside, before[1], after[1])
            if amb:
                s.event("ambiguous")
            if len(d) > len(inside):
                s.event("keys outside")
            un = len(x) - len(inside)
            if un and len(after[1]) > 1:
                s.nontrivial = True
            s.event("unlabelled entries", un)


def simulate(c, before, x, inside, after, limit=200):
    """Is `after` a possible result?"""
    allowed = set(before) | set(inside.values())
    if set(after) != allowed:
        return False, False
    maps = {l: [d["mapping"] for d in k["discriminators"]] for l, k in after.items()}
    start = {}
    for l, k in before.items():
        rc = models.from_content(c, k)
        for i, d in enumerate(rc.discs):
            if i >= len(maps[l]) or maps[l][i] != d.mapping:
                return False, False
        rc.mappings = maps[l]
        start[l] = rc
    states = [start]
    amb = False

    def step(states, e, choose):
        nonlocal amb
        nxt = []
        for s in states:
            ls = choose(s, e)
            if len(ls) > 1:
                amb = True
            for l in ls:
                rc = s[l] if l in s else models.RefCluster(c, maps[l])
                outs = rc.outcomes(e)
                if len(outs) > 1:
                    amb = True
                for o in outs:
                    n = rc.clone()
                    if n.apply(e, o):
                        t = dict(s)
                        t[l] = n
                        nxt.append(t)
        return nxt

    for i in sorted(inside):
        states = step(states, x[i], lambda s, e: [inside[i]])
        if len(states) > limit:
            return True, True
    for i in range(len(x)):
        if i not in inside:
            states = step(states, x[i], lambda s, e: sorted(models.clus_decide(s, e, c)[2]))
            if len(states) > limit:
                return True, True
    return any(set(s) == set(after) and all(s[l].matches(after[l]) for l in s) for s in states), amb
