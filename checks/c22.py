"""Candidate lists keep the best entries and yield each once, nearest first; visited sets and bit sets report membership exactly."""
import copy, os
import conf, vf
LEVEL = "model_checking"
TECHNIQUE = ("TLA+ model of the sorted array with cursor, the epoch-stamped marks and the dirty-word bit set, every operation sequence explored up to a bound, five wrong designs "
             "refuted; model-generated histories of every list, set and pool class of the library judged by the abstract list and set")
NOTE = ("Which of several equally distant candidates is kept or yielded first is left open, except in the deduplicating list, which orders them by id and is given one distance per "
        "id, as in a search. Marks of 32 bits are not worn out.")


def corrupt(e):
    c = copy.deepcopy(e)
    if e["op"] == "list" and len(e["ids"]) > 1:
        c["ids"][0] += 1000
        return c
    if e["op"] == "dump" and e["ids"]:
        c["ids"] = e["ids"][1:]
        return c
    if e["op"] == "insert" and e["ret"] == "yes":
        c["ret"] = "no"
        return c


def run(ck):
    T = ck.thorough
    for k in ("", "_dedup", "_sets"):
        vf.model_check(ck, "MCCands", "MCCands%s%s.cfg" % (k, "_thorough" if T else ""), timeout=900)
    for k, what in ((1, "a cursor that is not lowered"), (2, "making room without comparing"), (3, "marks not wiped when the epoch wraps"),
                    (4, "a dirty word not recorded"), (5, "looking for duplicates by distance alone")):
        vf.model_refutes(ck, "MCCands", "MCCands_bad%d.cfg" % k, what)
    exe = vf.build_exe("cands", [os.path.join(vf.HARN, "cpp/cands.cpp")])
    ex = conf.exe_runner(exe)
    for k, (n, d) in enumerate(((2500, 40), (300, 150)) if not T else ((12000, 40), (2500, 150))):
        g = vf.gen_behaviours("CandsGen", "CandsGen.cfg", num=n, depth=d, seed=ck.seed * 10 + k)
        runs = conf.conformance(ck, g, "list and set histories (depth %d)" % d, ex, "CandsTrace")
        if k == 0:
            conf.binding_selftest(ck, runs, "CandsTrace", corrupt)
