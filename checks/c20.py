"""Reading through the page layer returns what was last written; a flush makes the file equal to it."""
import copy, os
import conf, vf
LEVEL = "model_checking"
TECHNIQUE = ("TLA+ model of the page cache protocol (peek, read outside the lock, version check, fill, eviction with write-back), every interleaving explored, six wrong designs "
             "refuted; model-generated histories and recorded concurrent histories of the real page layer and hot-node cache judged by the model")
NOTE = ("Every node has one writer at a time and whole-cache resets and batch neighbour reads are not run beside writers, as the code's comments ask. "
        "io_uring is replaced by a stand-in that performs requests at arbitrary moments, in arbitrary order.")


def corrupt(e):
    if e["op"] == "read" and e["res"] == "ok":
        c = copy.deepcopy(e)
        c["out"]["b"] += 1
        return c
    if e["op"] == "par" and e["reads"]:
        c = copy.deepcopy(e)
        c["reads"][-1]["r"]["b"] += 7001
        return c
    if e["op"] == "lookup" and e["out"]:
        c = copy.deepcopy(e)
        c["out"] = []
        return c


def run(ck):
    T = ck.thorough
    for c in ("", "_none") + (("_thorough", "_two") if T else ()):
        vf.model_check(ck, "MCPages", "MCPages%s.cfg" % c, timeout=900)
    for k, what in ((1, "installing bytes read from the device without looking at the version"), (2, "not counting a write"),
                    (3, "forgetting a dirty page on eviction"), (4, "a fill that replaces a cached page"), (5, "a clean fill that clears the dirty mark"),
                    (6, "noting the version after reading the device")):
        vf.model_refutes(ck, "MCPages", "MCPages_bad%d.cfg" % k, what)
    exe = vf.build_exe("pages", [os.path.join(vf.HARN, "cpp/pages.cpp")], incs=["-I" + os.path.join(vf.HARN, "shim/uring")])
    ex = conf.exe_runner(exe)
    for k, (n, d) in enumerate(((1200, 40), (150, 150)) if not T else ((6000, 40), (1200, 150))):
        g = vf.gen_behaviours("PageStoreGen", "PageStoreGen.cfg", num=n, depth=d, seed=ck.seed * 10 + k)
        runs = conf.conformance(ck, g, "page histories (depth %d)" % d, ex, "PageStoreTrace")
        if k == 0:
            conf.binding_selftest(ck, runs, "PageStoreTrace", corrupt)
