"""C07 Saved Wisards and Discriminators reload as equal models."""
import json

from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import check, same


@st.composite
def case(draw):
    if draw(st.integers(0, 3)) == 0:
        c = draw(gen.config())
        pool = draw(gen.entries(c["base"], c["entry"], 1, 5))
        one = st.tuples(st.integers(0, len(pool) - 1), gen.times).map(list)
        rounds = draw(st.lists(st.lists(one, max_size=4), min_size=1, max_size=4))
        return {"kind": "disc", "cfg": c, "pool": pool, "rounds": rounds, "clock": draw(gen.clock), "single": draw(models.single()),
                "huge": draw(models.inflation(models.HUGE_FACTORS)) if gen.rarely(draw, 6) else None}
    c = draw(models.wisard_cfg(nlab=(1, 4), nasty=draw(st.integers(0, 2)) == 0, degrees=True))
    pool = draw(gen.entries(c["base"], c["entry"], 1, 5))
    rounds = []
    for _ in range(draw(st.integers(1, 4))):
        rounds.append(draw(models.history(len(pool), len(c["labels"]), ("train", "train", "forget"), 0, 3)))
    if gen.rarely(draw, 12):
        rounds[draw(st.integers(0, len(rounds) - 1))].append(draw(models.inflation()))
    return {"kind": "wisard", "cfg": c, "pool": pool, "rounds": rounds, "clock": draw(gen.clock), "single": draw(models.single()),
            "clock2": draw(gen.clock), "hops": draw(st.sampled_from([9, 20, 40, 120])) if draw(st.integers(0, 79)) == 41 else 0,
            "huge": draw(models.inflation(models.HUGE_FACTORS)) if gen.rarely(draw, 6) else None}


def sub(d, keys):
    return {k: d.get(k) for k in keys}


class PROP:
    ID = "C07"
    BACKENDS = ["py", "py", "py", "py", "py", "src", "hdr", "hdr"]
    QUICK, THOROUGH = 2800, 50000
    QUICK_S = 35
    RULE = ("training / forgetting histories cut by save-and-reload points; the original and every reload run on in "
            "parallel with the same operations (also for classes first seen after the reload when their addressing "
            "is configured) and are compared on options, contents, classes with degrees, mental images; "
            "some models also with counts and numbers of trainings up to 2^31. Non-trivial: a reload of a model with learned content is followed by further learning or forgetting")

    @staticmethod
    def strategy(tier, backend):
        return case()

    @staticmethod
    def run(api, case, s):
        api = models.calls(api, case, s)
        s.event(case["kind"])
        if case["kind"] == "disc":
            return PROP.disc(api, case, s)
        c, pool, labels = case["cfg"], case["pool"], case["cfg"]["labels"]
        s.clock(case["clock"])
        a = models.make_wisard(api, c)
        copies = []
        learned = {}
        seen = set()
        asked = models.neighbours(pool, c["base"], 2)

        def configured(l):
            if c["mode"] == "mapping":
                return bool(c.get("indexes")) or l in c["mapping"]
            return c["mode"] == "indexes"

        def compare(what):
            ta = a.json()
            oa, ca = ref.wisard_content(ta)
            for i, r in enumerate(copies):
                o, cc = ref.wisard_content(r.json())
                w = "reload %d %s" % (i, what)
                same(o, oa, w + ": options")
                same(cc, ca, w + ": content")
                same(r.classify(asked), a.classify(asked), w + ": answers")
                same(r.getMentalImages(), a.getMentalImages(), w + ": mental images")
            models.saved_options(oa, c, False)
            return ta

        for k, ops in enumerate(case["rounds"]):
            for op in ops:
                if op[0] == "inflate":
                    # everything goes on from the same model with larger counts
                    big = models.inflate("wisard", a.json(), op, 20 * len(asked))
                    a = api.Wisard(big)
                    copies = [api.Wisard(big) for _ in copies]
                    same(ref.wisard_content(a.json(), True)[1], ref.wisard_content(big, True)[1], "large counts loaded")
                    s.event("inflated")
                    continue
                if op[0] == "forget":
                    ps = [p for p, v in sorted(learned.items()) if v > 0]
                    ps = ps[:3] if len(ps) < 20 else ps[::2]
                    for m in [a] + copies:
                        for p in ps:
                            m.leaveOneOut(pool[p[0]], labels[p[1]])
                    for p in ps:
                        learned[p] -= 1
                    if ps and copies:
                        s.nontrivial = True
                        s.event("forgotten after reload")
                    continue
                idx = [[op[1], op[2]]] * op[3] if op[0] == "many" else op[1]
                # the addressing of a class that is new to a reload is only determined if it was configured
                idx = [p for p in idx if not copies or labels[p[1]] in seen or configured(labels[p[1]])]
                if not idx:
                    continue
                for m in [a] + copies:
                    m.train([pool[p[0]] for p in idx], [labels[p[1]] for p in idx])
                for p in idx:
                    learned[tuple(p)] = learned.get(tuple(p), 0) + 1
                    if labels[p[1]] not in seen and copies:
                        s.event("new class after reload")
                    seen.add(labels[p[1]])
                if copies:
                    s.nontrivial = True
                    s.event("learned after reload")
            text = compare("after round %d" % k)
            if not seen:
                s.event("untrained model saved")
            s.clock(case["clock2"])
            copies.append(api.Wisard(text))
            again = copies[-1].json()
            same(ref.wisard_content(again, True), ref.wisard_content(text, True), "saving the reload again")
            same(sorted(json.loads(again)), sorted(json.loads(text)), "fields of the saved reload")
            if len(copies) > 1:
                copies.append(api.Wisard(copies.pop(0).json()))
            if k == 0 and case.get("hops"):
                # a reload of a reload of a reload ...
                r = copies[-1]
                for _ in range(case["hops"]):
                    r = api.Wisard(r.json())
                copies.append(r)
                s.event("many reloads in a row")
            compare("just loaded")
        PROP.fresh(c, pool, copies[-1], api, s)
        if case["huge"]:
            models.large_counts(api.Wisard, "wisard", a.json(), case["huge"], c["base"])
            s.event("counts up to 2^31")

    @staticmethod
    def fresh(c, pool, m, api, s):
        """A class first seen after the reload, whose addressing may be random: the options decide as configured."""
        before = ref.wisard_content(m.json())[1]
        label = "fresh" if c["mode"] != "mapping" else "fresh ::"
        if label in before:
            return
        x = pool[:40]
        m.train(x, [label] * len(x))
        after = ref.wisard_content(m.json())[1]
        same({l: d for l, d in after.items() if l != label}, before, "the other classes")
        d = after[label]
        models.judge(c, d["mapping"], None, "class first seen after the reload")
        r = ref.RefDisc(d["mapping"], c["base"], c["ignoreZero"])
        for e in x:
            r.train(e)
        same(d["count"], len(x), "trainings of the class first seen after the reload")
        for i, ram in enumerate(d["rams"]):
            same(ref.ram_patterns(ram, c["base"], len(d["mapping"][i])), dict(r.rams[i]), "RAM %d of the fresh class" % i)
        same(list(m.getMentalImages()[label]), r.mental(c["entry"]), "mental image of the fresh class")
        s.event("class first seen after a reload")

    @staticmethod
    def disc(api, case, s):
        c, pool = case["cfg"], case["pool"]
        s.clock(case["clock"])
        a = api.Discriminator(c["addr"], c["entry"], **gen.disc_kwargs(c))
        asked = models.neighbours(pool, c["base"], 2)
        copies = []
        cpp = api.__name__ != "wisardpkg"
        for ops in case["rounds"]:
            for e, t in ops:
                for m in [a] + copies:
                    m.train([pool[e]] * t)
                if copies:
                    s.nontrivial = True
            text = a.json()
            ja = json.loads(text)
            copies.append(api.Discriminator(text))
            for i, r in enumerate(copies):
                jr = json.loads(r.json())
                what = "reload %d of a discriminator" % i
                same(ref.disc_content(jr), ref.disc_content(ja), what + ": content")
                same(sub(jr, ("ignoreZero", "base")), sub(ja, ("ignoreZero", "base")), what + ": options")
                for e in asked:
                    same(list(r.classify(e)), list(a.classify(e)), what + ": responses")
                if cpp:
                    same(list(r.getMentalImage()), list(a.getMentalImage()), what + ": mental image")
                    same(r.getNumberOfTrainings(), a.getNumberOfTrainings(), what + ": trainings")
                    same(r.getNumberOfRAMS(), a.getNumberOfRAMS(), what + ": RAMs")
            same(ja.get("base"), c["base"], "saved base")
            same(ja.get("ignoreZero"), c["ignoreZero"], "saved ignoreZero")
        if case["huge"]:
            models.large_counts(api.Discriminator, "disc", a.json(), case["huge"], c["base"])
            s.event("counts up to 2^31")
