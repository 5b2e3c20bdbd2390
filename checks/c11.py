"""A disk collection answers as the exact union of its segments."""
import copy
import conf, diskc, vf
LEVEL = "model_checking"
TECHNIQUE = ("TLA+ model of a disk collection (segments, pending rows, handle); model-generated histories run on the real DiskCollection, every answer, "
             "distance, tie and size judged by the model; the flush protocol model-checked with faults and power loss")
NOTE = ("Exact for flat segments under L2, inner product and cosine (vectors whose cosines are exact); graph segments exact up to the choice among ties when "
        "beam and degree cover the segment, otherwise sound (live labels, true distances, order). LASER segments are not imported.")


def corrupt(e):
    if e["op"] == "search" and e["res"] == "ok" and len(e["hits"]) > 1:
        c = copy.deepcopy(e)
        c["hits"] = c["hits"][1:]
        return c


def run(ck):
    T = ck.thorough
    vf.model_check(ck, "MCDiskColl", "MCDiskColl_thorough.cfg" if T else "MCDiskColl.cfg")
    ex = diskc.runner()
    for eng, n, d in (("flat", 260, 22), ("vamana", 200, 22), ("flat", 30, 80), ("vamana", 25, 80)) if not T else \
            (("flat", 5000, 22), ("vamana", 4000, 22), ("flat", 900, 90), ("vamana", 900, 90)):
        runs = conf.conformance(ck, diskc.histories(eng, n, d, ck.seed * 7 + d), "%s histories (depth %d)" % (eng, d), ex, "DiskCollTrace")
        if eng == "flat" and d == 22:
            conf.binding_selftest(ck, runs, "DiskCollTrace", corrupt)
