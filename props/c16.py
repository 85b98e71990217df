"""C16 Reported degrees describe the decision that was taken."""
from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import check, same

TOL = 1e-5


@st.composite
def case(draw):
    clus = draw(st.integers(0, 2)) == 0
    if clus:
        c = draw(models.clus_cfg(max_entry=16, nlab=(1, 4), degrees=True))
    else:
        c = draw(models.wisard_cfg(max_entry=20, nlab=(1, 5), degrees=True))
    if not (c["returnConfidence"] or c["returnActivationDegree"] or c["returnClassesDegrees"]):
        c[draw(st.sampled_from(["returnConfidence", "returnActivationDegree", "returnClassesDegrees"]))] = True
    pool = draw(gen.entries(c["base"], c["entry"], 2, 8))
    ops = draw(models.history(len(pool), len(c["labels"]), ("train",), 0 if draw(st.integers(0, 9)) == 0 else 1, 6,
                              gen.times))
    if gen.rarely(draw, 8):
        ops.append(draw(models.inflation()))
    return {"clus": clus, "cfg": c, "pool": pool, "ops": ops, "more": draw(gen.entries(c["base"], c["entry"], 1, 4)),
            "clock": draw(gen.clock), "single": draw(models.single()), "long": draw(gen.long())}


def near(a, b):
    return abs(a - b) <= TOL


class PROP:
    ID = "C16"
    BACKENDS = ["py"]
    QUICK, THOROUGH = 2800, 50000
    QUICK_S = 35
    RULE = ("Wisards and ClusWisards with every combination of the degree options; each answer is compared with the "
            "reference decision computed from the saved contents (active RAMs per candidate at the final threshold) and "
            "with the class a copy without degrees answers; exactly the requested fields; lists, data sets and single "
            "questions agree. Non-trivial: an answer with at least two candidates, a winner active in at least two RAMs "
            "and a second candidate with fewer but not none")
    ASSUMPTIONS = ["degrees are floating point numbers: compared within 1e-5",
                   "the lead is over the next lower count, also if the winner shares its count (relative to the best count)"]

    @staticmethod
    def strategy(tier, backend):
        return case()

    @staticmethod
    def run(api, case, s):
        api = models.calls(api, case, s)
        c, pool, labels = case["cfg"], case["pool"], case["cfg"]["labels"]
        s.clock(case["clock"])
        m = (models.make_clus if case["clus"] else models.make_wisard)(api, c)
        trained = set()
        for op in case["ops"]:
            if op[0] == "inflate":
                m = models.again(m, models.inflate("clus" if case["clus"] else "wisard", m.json(), op,
                                           14 * len(pool) + 99))
                s.event("inflated")
                continue
            pairs = models.train_pairs(op, pool, labels)
            m.train([p[0] for p in pairs], [p[1] for p in pairs])
            trained |= {p[1] for p in pairs}
        text = m.json()
        import json
        j = json.loads(text)
        for k in ("returnConfidence", "returnActivationDegree", "returnClassesDegrees"):
            same(j[k], bool(c[k]), k)
            j[k] = False
        off = (api.ClusWisard if case["clus"] else api.Wisard)(json.dumps(j))
        asked = models.neighbours(pool, c["base"], 3) + case["more"]
        plain = off.classify(asked)
        got = m.classify(asked)
        same([g["class"] for g in got], list(plain), "classes with and without degrees")
        same([m.classify([e])[0] for e in asked[:4]], got[:4], "the same entries asked alone")
        if not case["clus"] and c["base"] == 2:
            ds = api.DataSet()
            for e in asked:
                ds.add(e)
            same(m.classify(ds), got, "the same entries as a data set")
        if models.ask_long(m.classify, asked, list(got), case["long"], "clus" if case["clus"] else "wisard", text,
                           "to a long list"):
            s.event("hundreds or thousands of questions at once")
        fields = {"class"}
        for k, f in (("returnConfidence", "confidence"), ("returnActivationDegree", "activationDegree"),
                     ("returnClassesDegrees", "classesDegrees")):
            if c[k]:
                fields.add(f)
        if case["clus"]:
            refs, _ = models.clus_refs(c, text)
        else:
            _, classes = ref.wisard_content(text)
            refs = {}
            for l, d in classes.items():
                r = ref.RefDisc(d["mapping"], c["base"], c["ignoreZero"])
                for i, ram in enumerate(d["rams"]):
                    r.rams[i].update(ref.ram_patterns(ram, c["base"], len(d["mapping"][i])))
                refs[l] = r
        for e, g in zip(asked, got):
            same(set(g), fields, "fields of %r" % (g,))
            if case["clus"]:
                counts, _, ok = models.clus_decide(refs, e, c)
                votes = {k: len(v) for k, v in models.clus_candidates(refs, e).items()}
                owner = {k: k[0] for k in counts}
            else:
                v = {l: r.votes(e) for l, r in refs.items()}
                counts, _ = ref.bleach_fast(v, c["bleachingActivated"], c["confidence"])
                ok = {ref.winner(counts)}
                votes = {l: len(x) for l, x in v.items()}
                owner = {l: l for l in counts}
            check(g["class"] in ok, "class of %r is %r, expected one of %r", e, g["class"], ok)
            best = max(counts.values(), default=0)
            lower = max((x for x in counts.values() if x < best), default=0)
            if "confidence" in g:
                want = (best - lower) / best if best else 0
                check(near(g["confidence"], want), "confidence of %r is %r, expected %r (%r)", e, g["confidence"], want,
                      counts)
            if "activationDegree" in g:
                acc = {x / votes[k] if votes[k] else 0.0 for k, x in counts.items()
                       if x == best and owner[k] == g["class"]} or {0.0}
                check(any(near(g["activationDegree"], w) for w in acc),
                      "activation degree of %r is %r, expected %r (%r of %r RAMs)", e, g["activationDegree"], sorted(acc),
                      counts, votes)
                check(0 <= g["activationDegree"] <= 1 + TOL, "activation degree %r", g["activationDegree"])
            if "classesDegrees" in g:
                total = sum(counts.values())
                cd = g["classesDegrees"]
                check(all(set(x) == {"class", "degree"} for x in cd), "fields of the degrees %r", cd)
                sets = []
                if case["clus"]:
                    by_text = sorted(counts, key=lambda k: ref.bkey(models.composite(k)))
                    by_num = sorted(counts, key=lambda k: (ref.bkey(k[0]), k[1]))
                    sets = [[(models.composite(k), counts[k]) for k in o] for o in (by_text, by_num)]
                    sets += [[(owner[k], counts[k]) for k in o] for o in (by_text, by_num)]
                else:
                    sets = [[(l, counts[l]) for l in sorted(counts, key=ref.bkey)]]
                check(any(len(w) == len(cd) and all(x["class"] == l and near(x["degree"], n / total if total else 0)
                                                    for x, (l, n) in zip(cd, w)) for w in sets),
                      "degrees of %r are %r, active RAMs %r", e, cd, counts)
            if len(counts) > 1 and best > 1 and 0 < lower:
                s.nontrivial = True
            if best == 0:
                s.event("nothing active")
            if len(ref.winners(counts)) > 1:
                s.event("tie")
        s.event("clus" if case["clus"] else "wisard")
        if not trained:
            s.event("untrained")
