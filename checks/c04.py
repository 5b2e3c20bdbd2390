"""A collection behaves as a map from item id to document."""
import copy
import coll, vf
LEVEL = "model_checking"
TECHNIQUE = 'TLA+ Collection model (TLC exhaustive + slot-level refinement); model-generated histories replayed on the real Python API, recorded answers validated against the model'
NOTE = "Every short history over a small alphabet and thousands of model-generated random ones; the abstract and the slot-level design are exhaustively model checked in small constants. Trusts TLC, the driver's value coding and the libcoro shim."


def corrupt(e):
    if e["op"] == "dump" and e["out"]:
        c = copy.deepcopy(e)
        c["out"][0]["d"] += 1
        return c


def run(ck):
    T = ck.thorough
    vf.model_check(ck, "MCCollection", "MCCollection_thorough.cfg" if T else "MCCollection.cfg", workers=8)
    vf.model_check(ck, "CollectionImpl", "CollectionImpl_thorough.cfg" if T else "CollectionImpl.cfg", workers=8)
    coll.pkg(ck)
    s = []
    for q, n in (("none", 220), ("sq8", 60), ("sq4", 20)):
        s += coll.generate("map", n * (12 if T else 1), 16, ck.seed, q)
    s += coll.generate("capacity", 600 if T else 80, 14, ck.seed + 1)
    s += coll.generate("capacity", 200 if T else 20, 14, ck.seed + 2, "sq8")
    runs = coll.conformance(ck, s, "random histories")
    x = coll.generate("map", None, 4 if T else 3, ck.seed, cfg="CollectionX.cfg")
    x += coll.generate("map", None, 3 if T else 2, ck.seed, cfg="CollectionX.cfg", xset="cap")
    ends = [dict(o, ops=o["ops"] + [{"op": "dump"}, {"op": "reopen"}, {"op": "dump"}]) for o in x]
    coll.conformance(ck, ends, "every short history")
    coll.binding_selftest(ck, runs, mutate=corrupt)
