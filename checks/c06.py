"""Vector search returns live, distinct, correctly ranked items."""
import copy
import coll, vf
LEVEL = "model_checking"
TECHNIQUE = 'TLA+ Collection model with exact integer distances; recorded searches validated by TLC'
NOTE = 'Exactness is only required while every node may link to every other one (slots <= max_nbrs); beyond that soundness (live, distinct, ordered, true distances).'


def corrupt(e):
    if e["op"] == "query" and len(e["out"]) >= 1 and e["exact"]:
        c = copy.deepcopy(e)
        c["out"].pop(0)
        return c


def run(ck):
    T = ck.thorough
    vf.model_check(ck, "CollectionImpl", "CollectionImpl_thorough.cfg" if T else "CollectionImpl.cfg", workers=8)
    coll.pkg(ck)
    m = 12 if T else 1
    s = []
    for q, n in (("none", 260), ("sq8", 120), ("sq4", 60)):
        s += coll.generate("vector", n * m, 20, ck.seed, q)
    runs = coll.conformance(ck, s, "vector queries over random histories")
    coll.binding_selftest(ck, runs, mutate=corrupt)
