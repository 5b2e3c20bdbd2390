"""A disk collection has at most one open handle."""
import conf, diskc, random, vf
LEVEL = "model_checking"
TECHNIQUE = ("TLA+ model of the creation and locking protocol, system call by system call, for three processes with deaths (TLC; three wrong designs refuted); "
             "simultaneous attempts from real threads and processes and handle histories judged by the collection model")
NOTE = "Advisory locks of a local file system; races on the real code are sampled, the interleavings are exhausted on the model only."


def corrupt(e):
    if e["op"] == "race" and e["oks"] == 1:
        return dict(e, oks=2)


def run(ck):
    T = ck.thorough
    rng = random.Random(ck.seed)
    vf.model_check(ck, "MCDiskLock", "MCDiskLock_thorough.cfg" if T else "MCDiskLock.cfg")
    for k, what in ((1, "creating over an existing lock file"), (2, "opening without the lock"), (3, "removing the lock file on close")):
        vf.model_refutes(ck, "MCDiskLock", "MCDiskLock_bad%d.cfg" % k, what)
    ex = diskc.runner()
    s = []
    for j in range(2500 if T else 160):
        kind = rng.choice(("R", "P"))
        c = ["%s %s %d" % (kind, rng.choice("ccm"), rng.choice((2, 3, 6)))]
        c += ["O", "X"] if j % 4 == 0 else []
        c += ["O2", "OX", "C2", "CX", "O", "A 1,2 " + diskc.rows("2 l2", 2, rng), "O2", "OX", "C2", "CX", "%s o 3" % kind, "F", "OX", "N", "Z", "%s o 3" % kind,
              "K 1 0 O ; A 5,6 1,1/2,2 ; F", "%s o 4" % kind, "O", "OX", "N", "S 9 64 0,0"]
        s.append(dict(head="2 l2 %s -1 8 20 1" % rng.choice(("flat", "vamana")), cmds=c))
    runs = conf.conformance(ck, s, "simultaneous attempts", ex, "DiskCollTrace")
    conf.binding_selftest(ck, runs, "DiskCollTrace", corrupt)
    for eng in ("flat", "vamana"):
        conf.conformance(ck, diskc.histories(eng, 1500 if T else 100, 25, ck.seed + 60), "%s handle histories" % eng, ex, "DiskCollTrace")
