"""Saved in-memory indexes load back unchanged."""
import copy, os
import conf, vf
LEVEL = "model_checking"
TECHNIQUE = ("TLA+ model of the graph file as a stream of fields with an optional tail, written and read over every small graph, wrong designs refuted; model-generated histories of graphs, overlay "
             "layers and whole indices (HNSW over raw, SQ8 and SQ4 stores, RaBitQ graphs) copied through files, original and copy then treated alike, judged by a specification in which "
             "saving and loading leave no mark")
NOTE = ("Of whole indices only the sameness of original and copy is specified here; what a search must return is judged under C06. Additions after a removal are compared by their ids only: the repair "
        "notes kept in memory are not part of the files.")


def corrupt(e):
    c = copy.deepcopy(e)
    if e["op"] == "dump":
        c["rows"][0][0] += 1
        return c
    if e["op"] == "start" and e["ids"]:
        c["ids"][-1] += 1
        return c

def run(ck):
    T = ck.thorough
    vf.model_check(ck, "MCGraphFile", "MCGraphFile%s.cfg" % ("_thorough" if T else ""), timeout=900)
    for k, what in ((1, "a tail written without a graph above"), (2, "an old tail kept when the file has none"), (3, "removal marks not written"), (4, "levels stored where edges are counted")):
        vf.model_refutes(ck, "MCGraphFile", "MCGraphFile_bad%d.cfg" % k, what)
    exe = vf.build_exe("graphs", [os.path.join(vf.HARN, "cpp/graphs.cpp")])
    ex = conf.exe_runner(exe)
    for k, (n, d) in enumerate(((900, 40),) if not T else ((5000, 40), (1000, 120))):
        g = vf.gen_behaviours("GraphFileGen", "GraphFileGen.cfg", num=n, depth=d, seed=ck.seed * 10 + k)
        runs = conf.conformance(ck, g, "graph and index histories (depth %d)" % d, ex, "GraphFileTrace")
        if k == 0:
            conf.binding_selftest(ck, runs, "GraphFileTrace", corrupt)
