"""Hybrid search returns only matching live items, nearest first."""
import copy
import coll, vf
LEVEL = "model_checking"
TECHNIQUE = 'TLA+ Collection model (filter x nearest); recorded hybrid searches of every strategy validated by TLC'
NOTE = 'As C06, for the prefilter, iterative, brute-force and partitioned-view strategies, single and batched.'


def corrupt(e):
    if e["op"] == "hybrid" and len(e["out"]) >= 1 and e["exact"]:
        c = copy.deepcopy(e)
        c["out"].pop(0)
        return c


def run(ck):
    T = ck.thorough
    vf.model_check(ck, "MCFilter", "MCFilter.cfg", workers=8)
    coll.pkg(ck)
    m = 10 if T else 1
    s = []
    for q, n in (("none", 150), ("sq8", 70), ("sq4", 30)):
        s += coll.generate("hybrid", n * m, 18, ck.seed, q)
    for q, n in (("none", 250), ("sq8", 60)):
        s += coll.generate("view", n * m, 18, ck.seed + 1, q)
    runs = coll.conformance(ck, s, "hybrid queries over random histories")
    coll.binding_selftest(ck, runs, mutate=corrupt)
