"""Built graphs are well formed and partitioned builds lose nothing."""
import copy, os
import conf, vf
LEVEL = "model_checking"
TECHNIQUE = ("TLA+ model of concurrent linking under per-node locks and of the cursor merge of shard files, every interleaving and every small shard set explored, wrong designs refuted; "
             "model-generated data sets and parameters (tiny, duplicate-heavy, impossible budgets) built, pruned, sharded, merged, written and read by the real code and judged by the specification")
NOTE = ("Which of several admissible neighbours a builder picks is left open. A partitioned build may refuse a budget that cannot be met or a sample below three vectors; "
        "graph files with a node without neighbours are refused by the reader, as documented.")


def corrupt(e):
    c = copy.deepcopy(e)
    if e["op"] in ("build", "hnsw") and any(e["g"]):
        l = next(x for x in c["g"] if x)
        l[-1] = c["g"].index(l)
        return c
    if e["op"] == "merge" and any(e["g"]):
        next(x for x in c["g"] if x).pop()
        return c
    if e["op"] == "assign" and e["res"] == "ok" and any(e["ids"]):
        next(x for x in c["ids"] if x).pop()
        return c
    if e["op"] == "prune" and e["r"]:
        c["r"].append(c["loc"])
        return c
    if e["op"] == "file" and e["res"] == "ok":
        c["start"] += 1
        return c


def run(ck):
    T = ck.thorough
    vf.model_check(ck, "MCLink", "MCLink%s.cfg" % ("_thorough" if T else ""), timeout=900)
    vf.model_check(ck, "MCMerge", "MCMerge%s.cfg" % ("_thorough" if T else ""), timeout=900)
    for k, what in ((1, "appending without looking"), (2, "no pruning at the end"), (3, "a node among its own candidates"), (4, "storing an empty selection over back edges")):
        vf.model_refutes(ck, "MCLink", "MCLink_bad%d.cfg" % k, what)
    for k, what in ((1, "advancing only over nodes with neighbours"), (2, "neighbours not translated"), (3, "duplicates kept"), (4, "only the first shard of a node read")):
        vf.model_refutes(ck, "MCMerge", "MCMerge_bad%d.cfg" % k, what)
    exe = vf.build_exe("vamana", [os.path.join(vf.HARN, "cpp/vamana.cpp")])
    ex = conf.exe_runner(exe)
    for k, (n, d) in enumerate(((320, 14),) if not T else ((6000, 14), (800, 60))):
        g = vf.gen_behaviours("VamanaGen", "VamanaGen.cfg", num=n, depth=d, seed=ck.seed * 10 + k)
        runs = conf.conformance(ck, g, "graph builds (depth %d)" % d, ex, "VamanaTrace", copies=3)
        if k == 0:
            conf.binding_selftest(ck, runs, "VamanaTrace", corrupt)
