"""Histories of the updatable disk index, judged by specs/DiskAnnTrace.tla (used by C16, C17, C18)."""
import copy, os
import conf, vf


def corrupt(e):
    c = copy.deepcopy(e)
    if e["op"] == "search" and e["res"] == "ok" and any(e["rows"]):
        r = next(r for r in c["rows"] if r)
        r[0]["d"] += 1
        return c
    if e["op"] == "graph" and e["res"] == "ok" and e["live"]:
        c["v"][e["dead"].index(False)][0] += 1
        return c
    if e["op"] == "par" and e["reads"] and any(e["reads"][-1]["rows"]):
        r = next(r for r in c["reads"][-1]["rows"] if r)
        r[0]["l"] = 999
        return c
    if e["op"] == "load" and e["res"] == "ok":
        c["live"] += 1
        return c


class DropEdge:
    """an insertion that forgot to link back: the graph after an insertion into a known graph, without its last edges"""

    def __init__(self):
        self.last = []

    def __call__(self, e):
        if e["op"] == "reset":
            self.last = []
        seen, self.last = self.last[-2:], self.last + [(e["op"], e.get("res"))]
        if e["op"] == "graph" and e["res"] == "ok" and not any(e["dead"]) and len(e["g"]) > 1 and all(e["g"]) and seen == [("graph", "ok"), ("insert", "ok")]:
            c = copy.deepcopy(e)
            c["g"] = [x[:-1] for x in c["g"]]
            return c


def histories(ck, todo, keep=None):
    """todo: list of (flavour, number, length)"""
    exe = vf.build_exe("diskann", [os.path.join(vf.HARN, "cpp/diskann.cpp")], incs=["-I" + os.path.join(vf.HARN, "shim/uring")])
    ex = conf.exe_runner(exe)
    for k, (fl, n, length) in enumerate(todo):
        g = vf.gen_behaviours("DiskAnnGen", "DiskAnnGen.cfg", num=n, depth=length * 6, seed=ck.seed * 10 + k, env={"FLAVOUR": fl, "LEN": str(length)})
        runs = conf.conformance(ck, g, "%s histories (length %d)" % (fl, length), ex, "DiskAnnTrace", copies=14 if fl == "par" else 1)
        if k == 0:
            conf.binding_selftest(ck, runs, "DiskAnnTrace", corrupt)
            if keep:
                conf.binding_selftest(ck, runs, "DiskAnnTrace", keep)
