"""Replacing a file is all-or-nothing, a rename that must not overwrite never does, and every way of reading returns the exact bytes."""
import copy, os
import conf, vf
LEVEL = "model_checking"
TECHNIQUE = ("TLA+ model of write, synchronise, rename, synchronise directory with a crash after every step and every state a disk may then be in, and of batched requests that a kernel takes "
             "in parts and finishes in any order, wrong designs refuted; model-generated histories of the file helpers, the memory map and both I/O engines, with calls cut short, "
             "interrupted and failing and competitors appearing in front of a rename, judged call by call by the specification of the directory")
NOTE = ("io_uring is a stand-in that performs requests at arbitrary moments, in arbitrary order and sometimes in part; submissions that the kernel refuses are not explored. "
        "Windows branches are not compiled.")


def corrupt(e):
    c = copy.deepcopy(e)
    if e["op"] in ("rd", "bounded", "prefix") :
        at = e["q"][-1]["at"] if e["op"] == "rd" else e["at"]
        if not at:
            return None
        (c["q"][-1]["at"] if e["op"] == "rd" else c["at"])[-1][1] ^= 1
        return c
    if e["op"] == "put" and e["res"] == "ok":
        c["sys"] = [x for x in e["sys"] if x[0] != "fsync"]
        return c
    if e["op"] == "move" and e["took"]:
        c["res"] = "ok"
        return c


def run(ck):
    T = ck.thorough
    vf.model_check(ck, "MCFileSwap", "MCFileSwap%s.cfg" % ("_thorough" if T else ""))
    vf.model_check(ck, "MCRing", "MCRing%s.cfg" % ("_thorough" if T else ""), timeout=900)
    for k, what in ((1, "data not synchronised before the rename"), (2, "success reported before the directory is synchronised"), (3, "written in place"), (4, "the old file removed first")):
        vf.model_refutes(ck, "MCFileSwap", "MCFileSwap_bad%d.cfg" % k, what)
    for k, what in ((1, "the whole chunk prepared again after a partial submission"), (2, "waiting for fewer completions than were submitted")):
        vf.model_refutes(ck, "MCRing", "MCRing_bad%d.cfg" % k, what)
    exe = vf.build_exe("fileops", [os.path.join(vf.HARN, "cpp/fileops.cpp")], incs=["-I" + os.path.join(vf.HARN, "shim/uring")])
    ex = conf.exe_runner(exe)
    for k, (n, d) in enumerate(((1500, 30), (250, 120)) if not T else ((9000, 30), (2000, 120))):
        g = vf.gen_behaviours("FileOpsGen", "FileOpsGen.cfg", num=n, depth=d, seed=ck.seed * 10 + k)
        runs = conf.conformance(ck, g, "file histories (depth %d)" % d, ex, "FileOpsTrace")
        if k == 0:
            conf.binding_selftest(ck, runs, "FileOpsTrace", corrupt)
