"""A failed disk collection call leaves the collection unchanged."""
import copy, random
import conf, diskc, vf
LEVEL = "fault_enumeration"
TECHNIQUE = ("TLA+ model of the flush protocol with failing operations (TLC; designs that lose rows or block retries refuted); in model-generated histories every "
             "file operation of flush and open is made to fail in turn on the real DiskCollection and all later answers are judged by the model")
NOTE = ("Failures: EIO, ENOSPC and EMFILE of every writing operation and of every reading open and mapping, once or from there on until the call returns. A failed "
        "creation may leave a directory to be removed; allocation failures are not injected.")


def faults(ck, ex, engine, num, depth, rng, per):
    base, plans = [], []
    for g in diskc.histories(engine, num, depth, ck.seed + 3):
        head, cmds = g["head"], g["cmds"][:-9]
        fl = diskc.flushes(cmds)
        for i in rng.sample(fl, min(per, len(fl))):
            plans.append((head, cmds[:i], "F", diskc.see(head, rng) + ["F"] + diskc.after(head, cmds, rng)))
        ops = [i for i, c in enumerate(cmds) if c == "O"]
        for i in rng.sample(ops, min(1, len(ops))):
            plans.append((head, cmds[:i] + ["Z"], "O", ["O"] + diskc.after(head, cmds, rng)))
        plans.append((head, [], "C", ["O", "Z", "X", "C"] + diskc.after(head, [], rng)))
    # count the operations, writing and reading
    dry = [dict(head=h, cmds=p + ["E 100000 1 5 %s" % m, c] + post) for h, p, c, post in plans for m in ("", READS)]
    runs = conf.conformance(ck, dry, "%s: undisturbed" % engine, ex, "DiskCollTrace")
    by = {id(s): r for s, r in runs}
    out = []
    for j, (h, p, c, post) in enumerate(plans):
        for m, s in (("", dry[2 * j]), (READS, dry[2 * j + 1])):
            if id(s) not in by:
                continue
            e = by[id(s)][1 + len(p)]
            for k in range(1, e.get("nops", 0) + 1):
                for cnt in (1, 1000):
                    err = rng.choice((5, 28, 24)) if not m else rng.choice((5, 24))
                    out.append(dict(head=h, cmds=p + ["E %d %d %d %s" % (k, cnt, err, m), c] + post))
    return out


READS = "ropen,mmap,flock"


def corrupt(e):
    if e["op"] == "flush" and e["fault"] and e["res"] == "err":
        return dict(copy.deepcopy(e), fault=False)


def run(ck):
    T = ck.thorough
    rng = random.Random(ck.seed)
    vf.model_check(ck, "MCDiskColl", "MCDiskColl_thorough.cfg" if T else "MCDiskColl.cfg")
    for k, what in ((3, "keeping the number of a published directory"), (4, "dropping the pending rows when a flush fails")):
        vf.model_refutes(ck, "MCDiskColl", "MCDiskColl_bad%d.cfg" % k, what)
    ex = diskc.runner()
    runs = conf.conformance(ck, diskc.histories("flat", 1500 if T else 120, 25, ck.seed + 40), "refused calls", ex, "DiskCollTrace")
    for eng in ("flat", "vamana"):
        s = faults(ck, ex, eng, *((4, 20, rng, 1) if not T else (50, 40, rng, 4)))
        runs = conf.conformance(ck, s, "%s: every file operation failing" % eng, ex, "DiskCollTrace")
        n = sum(1 for _, r in runs for e in r if e.get("fault") and e["res"] == "err")
        ck.note("%d calls failed by injected faults" % n)
        if not n:
            raise vf.CheckError("no injected fault had any effect")
        if eng == "flat":
            conf.binding_selftest(ck, runs, "DiskCollTrace", corrupt)
