"""The scalar store keeps records, indexes and counts consistent."""
import copy, os
import conf, vf
LEVEL = "model_checking"
TECHNIQUE = ("TLA+ model of the store (TLC exhaustive at key level against a plain map, three wrong designs refuted); model-generated histories of "
             "writes, batches, concurrent calls, kills, copies, old-format keys and second handles run on the real RocksDBStorage and judged by the model")
NOTE = ("The indexed fields stay the same over a store's life. A kill is modelled by copying the store's files while it is open. Field and value "
        "names whose index keys coincide (field n with value s_Y, field n_s with value Y) are a listed finding.")
ALIAS = dict(key="alias", head="n;n_s", cmds=["I 0 1/1/n=s:115,95,97", "I 1 2/1/n_s=s:97", "e n s:115,95,97", "e n_s s:97"])


def corrupt(e):
    if e["op"] == "scan" and e["out"]:
        c = copy.deepcopy(e)
        c["out"][0]["rec"]["doc"] = 9
        return c


def run(ck):
    T = ck.thorough
    vf.model_check(ck, "MCScalar", "MCScalar_thorough.cfg" if T else "MCScalar.cfg")
    for k, what in ((1, "a count written only when closing"), (2, "an update leaving the old index entry"), (3, "checking the item id outside the lock")):
        vf.model_refutes(ck, "MCScalar", "MCScalar_bad%d.cfg" % k, what)
    exe = vf.build_exe("scalar", [os.path.join(vf.HARN, "cpp/scalar.cpp")])
    ex = conf.exe_runner(exe)
    for k, (n, d) in enumerate(((300, 25), (50, 120)) if not T else ((6000, 25), (1500, 120), (200, 500))):
        g = vf.gen_behaviours("ScalarGen", "ScalarGen.cfg", num=n, depth=d, seed=ck.seed * 10 + k)
        runs = conf.conformance(ck, g, "scalar store histories (depth %d)" % d, ex, "ScalarTrace")
        if k == 0:
            conf.binding_selftest(ck, runs, "ScalarTrace", corrupt)
    conf.conformance(ck, [ALIAS], "coinciding index keys", ex, "ScalarTrace")
