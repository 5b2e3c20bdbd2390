"""Vector stores hand out slots in order and keep vectors, counts and codes in step."""
import copy, os
import conf, vf
LEVEL = "model_checking"
TECHNIQUE = ("TLA+ model of the vector store (slot array, bitmap, counters and scalar records stepped exhaustively beside it, three wrong designs refuted); "
             "model-generated histories run on the real spaces and slot array, every answer, stored vector, code and distance judged by the model")
NOTE = ("Integer vectors, so distances of raw spaces are exact; a quantised code must be the exact one when the fitted range is a power of two and within one "
        "step otherwise. Distances between codes are judged under C24.")


def corrupt(e):
    if e["op"] == "state" and e["num"]:
        c = copy.deepcopy(e)
        c["num"] += 1
        return c


def run(ck):
    T = ck.thorough
    vf.model_check(ck, "MCVecStore", "MCVecStore_thorough.cfg" if T else "MCVecStore.cfg")
    for k, what in ((1, "counting a refused insertion"), (2, "taking the slot before checking the item id"), (3, "counting a removal twice")):
        vf.model_refutes(ck, "MCVecStore", "MCVecStore_bad%d.cfg" % k, what)
    exe = vf.build_exe("vecstore", [os.path.join(vf.HARN, "cpp/vecstore.cpp")])
    ex = conf.exe_runner(exe)
    for k, (n, d) in enumerate(((700, 25), (60, 90)) if not T else ((12000, 25), (2000, 90))):
        g = vf.gen_behaviours("VecStoreGen", "VecStoreGen.cfg", num=n, depth=d, seed=ck.seed * 10 + k)
        runs = conf.conformance(ck, g, "vector store histories (depth %d)" % d, ex, "VecStoreTrace")
        if k == 0:
            conf.binding_selftest(ck, runs, "VecStoreTrace", corrupt)
