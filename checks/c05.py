"""Filter queries return exactly the matching records."""
import copy
import coll, vf
LEVEL = "model_checking"
TECHNIQUE = 'TLA+ filter semantics (Values/Collection); generated filters replayed on the real API and validated by TLC'
NOTE = 'Values come from a table of ranked extreme values and tricky strings, filters from nested and/or/not trees; finite numbers only.'


def corrupt(e):
    if e["op"] == "filter" and e["out"]:
        c = copy.deepcopy(e)
        c["out"].pop()
        return c


def run(ck):
    T = ck.thorough
    vf.model_check(ck, "MCCollection", "MCCollection_thorough.cfg" if T else "MCCollection.cfg", workers=8)
    vf.model_check(ck, "MCFilter", "MCFilter.cfg", workers=8)
    coll.pkg(ck)
    m = 12 if T else 1
    s = coll.generate("filter", 300 * m, 22, ck.seed)
    runs = coll.conformance(ck, s, "filter queries over random histories")
    # the indexed fast path answers hybrid searches: with a limit beyond the collection they are filter queries
    h = coll.generate("hybrid", 160 * m, 18, ck.seed + 7)
    for sc in h:
        for o in sc["ops"]:
            if o["op"] == "hybrid":
                o["k"] = 40
    coll.conformance(ck, h, "filters through the indexed path")
    coll.binding_selftest(ck, runs, mutate=corrupt)
