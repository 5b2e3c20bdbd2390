"""Searches concurrent with updates see only consistent records."""
import diskann, vf
LEVEL = "model_checking"
TECHNIQUE = ("TLA+ model of searches beside updates (hidden slots, reuse, allocation stamps), every interleaving explored, six wrong designs refuted; "
             "recorded concurrent histories of the real index, on a slow device, judged by the model with real-time order")
NOTE = ("Updates are serialised by the index itself; searches run on one to three threads beside them. Completeness of a concurrent search is demanded while every list has room "
        "and the entry point stays. Schedules are sampled, not enumerated; a rejected history counts only if it is rejected again when repeated.")


def run(ck):
    T = ck.thorough
    for c in ("",) + (("_thorough", "_two") if T else ()):
        vf.model_check(ck, "MCDiskSlots", "MCDiskSlots%s.cfg" % c, timeout=900)
    for k, what in ((1, "reporting slots that were handed out again during the search"), (2, "showing a slot before its record is written"),
                    (3, "releasing a slot without hiding it"), (4, "handing out a slot without hiding it"), (5, "stamping a slot when it is shown"),
                    (6, "dropping slots handed out before the search began")):
        vf.model_refutes(ck, "MCDiskSlots", "MCDiskSlots_bad%d.cfg" % k, what)
    diskann.histories(ck, (("par", 1500, 24), ("par", 250, 60)) if not T else (("par", 12000, 24), ("par", 2500, 60), ("par", 250, 250)))
