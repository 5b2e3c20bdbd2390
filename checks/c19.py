"""Slots of the updatable disk index are handed out exclusively and reused only after release; deletion marks agree."""
import copy, os
import conf, vf
LEVEL = "model_checking"
TECHNIQUE = ("TLA+ model of slot allocator and chunked atomic deletion marks, every interleaving of lock holders, unlocked writers and unlocked readers explored at the grain of "
             "single memory operations, four wrong designs refuted; model-generated histories and recorded concurrent histories of the real classes judged by the model")
NOTE = ("Which free slot is reused is left open. The allocator is used under its owner's lock, as its documentation says; marks are also set and cleared without one. "
        "Truncated files and foreign identification words must be refused; other altered bytes are not judged.")


def corrupt(e):
    if e["op"] in ("state", "mstate") and e["marks"]:
        c = copy.deepcopy(e)
        c["marks"] = c["snap"] = c["marks"][1:]
        return c
    if e["op"] == "par" and e["reads"]:
        c = copy.deepcopy(e)
        r = c["reads"][-1]
        ws = [w for w in e["writes"] if w["id"] == r["id"]]
        if not ws:
            r["res"] = not r["res"]
            return c


def run(ck):
    T = ck.thorough
    vf.model_check(ck, "MCSlots", "MCSlots_thorough.cfg" if T else "MCSlots.cfg", timeout=900)
    vf.model_check(ck, "MCSlots", "MCSlots_free_thorough.cfg" if T else "MCSlots_free.cfg", timeout=900)
    for k, what in ((1, "changing a word by a separate read and write"), (2, "installing a chunk without comparing"), (3, "handing out a slot without marking it"),
                    (4, "forgetting the free list over a reload")):
        vf.model_refutes(ck, "MCSlots", "MCSlots_bad%d.cfg" % k, what)
    exe = vf.build_exe("slots", [os.path.join(vf.HARN, "cpp/slots.cpp")])
    ex = conf.exe_runner(exe)
    for k, (n, d) in enumerate(((1500, 30), (200, 90)) if not T else ((6000, 30), (1500, 90))):
        g = vf.gen_behaviours("SlotsGen", "SlotsGen.cfg", num=n, depth=d, seed=ck.seed * 10 + k)
        runs = conf.conformance(ck, g, "slot histories (depth %d)" % d, ex, "SlotsTrace")
        if k == 0:
            conf.binding_selftest(ck, runs, "SlotsTrace", corrupt)
