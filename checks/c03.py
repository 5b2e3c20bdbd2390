"""Log replay returns exactly the committed operations."""
import copy, os
import conf, vf
LEVEL = "model_checking"
TECHNIQUE = ("TLA+ model of the log with cuts anywhere (TLC exhaustive, design without tail repair refuted); model-generated append/damage/reopen "
             "histories and every byte of a fixed log run on the real WriteAheadLog, recorded replays validated against the model")
NOTE = ("Damage is what a crash leaves: the file cut at any byte, with or without zeros or rubbish behind the cut; flipped payload bits are outside "
        "(the format has no checksum). Concurrent appends are serialised by the caller and not explored.")


def exhaustive(ck, run):
    """Cut the log of one fixed history at every byte; replay, append, replay, reopen, replay."""
    base = ["P 1 1 5,3", "C 1 1", "P 2 2 9,0", "C 2 2", "P 3 3 200,40", "P 4 4 7,2", "C 4 4", "C 3 3"]
    runs, crashes = run([dict(cmds=base)])
    if crashes:
        return [dict(cmds=base)]
    total = runs[0][1][-1]["size"]
    out = []
    for junk in (0, -7, 50):
        for off in range(0, total + 1):
            out.append(dict(cmds=base + ["K %d %d" % (off, junk), "R 0", "P 5 1 1,4", "C 5 1", "R 0", "O", "R 2", "P 6 3 3,1", "C 6 3", "R 0"]))
    return out


def corrupt(e):
    if e["op"] == "replay" and e["out"]:
        c = copy.deepcopy(e)
        c["out"] = c["out"][:-1]
        return c


def run(ck):
    T = ck.thorough
    vf.model_check(ck, "MCWal", "MCWal_thorough.cfg" if T else "MCWal.cfg")
    vf.model_refutes(ck, "MCWal", "MCWal_bad1.cfg", "appending behind a damaged tail")
    exe = vf.build_exe("wal", [os.path.join(vf.HARN, "cpp/wal.cpp")])
    ex = conf.exe_runner(exe)
    runs = conf.conformance(ck, exhaustive(ck, ex), "every cut of a log", ex, "WalTrace")
    conf.binding_selftest(ck, runs, "WalTrace", corrupt)
    for k, d in ((0, 12), (1, 40)) if not T else ((0, 12), (1, 40), (2, 150), (3, 400)):
        g = vf.gen_behaviours("WalGen", "WalGen.cfg", num=4000 if T else 500, depth=d, seed=ck.seed * 10 + k)
        conf.conformance(ck, g, "random log histories (depth %d)" % d, ex, "WalTrace")
