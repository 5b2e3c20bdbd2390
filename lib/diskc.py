"""Histories of the disk collection: generation, deaths, faults and power losses at every file operation."""
import os, random, re
import conf, disk, vf

EXE = None


def exe():
    global EXE
    if EXE is None:
        EXE = vf.build_exe("diskcoll", [os.path.join(vf.HARN, "cpp/diskcoll.cpp")])
    return EXE


def runner():
    return conf.exe_runner(exe(), env=dict(LD_PRELOAD=vf.build_shim(), OMP_WAIT_POLICY="passive"))


def histories(engine, num, depth, seed):
    return vf.gen_behaviours("DiskCollGen", "DiskCollGen.cfg", num=num, depth=depth, seed=seed, env=dict(ENGINE=engine))


def single(head):
    """Children must not start worker threads inside the builder."""
    h = head.split()
    return " ".join(h[:6] + ["1"] + h[7:])


def pending(cmds, i):
    """The additions still pending in front of command i."""
    p = []
    for c in cmds[:i]:
        if c in ("F", "Z", "C", "O", "X"):
            p = []
        elif c.startswith("A ") and c != "A - -":
            p.append(c)
    return p


def flushes(cmds):
    out = [i for i, c in enumerate(cmds) if c == "F" and pending(cmds, i)]
    return out


def spare(cmds, n=2):
    used = {int(x) for c in cmds if c.startswith("A ") for x in c.split()[1].split(",") if x not in ("-", "")}
    free = [x for x in range(1, 49) if x not in used]
    return free[:n]


def rows(head, n, rng):
    dim, metric = int(head.split()[0]), head.split()[1]
    if metric == "cos":
        return "/".join(",".join(["0"] * (dim - 1) + [rng.choice("123")]) for _ in range(n))
    return "/".join(",".join(str(rng.randint(-3, 3)) for _ in range(dim)) for _ in range(n))


def see(head, rng):
    return ["S 60 64 " + rows(head, 1, rng), "N"]


def after(head, cmds, rng):
    """Look, write again, look, reopen, look."""
    f = spare(cmds)
    w = ["A %s %s" % (",".join(map(str, f)), rows(head, len(f), rng))] if len(f) == 2 else []
    return see(head, rng) + w + ["F"] + see(head, rng) + ["Z", "O"] + see(head, rng)


def nops(run, op, pick=-1):
    return [e.get("nops", 0) for e in run if e["op"] == op][pick]
