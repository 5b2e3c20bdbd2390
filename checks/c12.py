"""A disk collection flush is atomic and durable."""
import copy, os, random
import conf, disk, diskc, vf
LEVEL = "fault_enumeration"
TECHNIQUE = ("TLA+ model of the flush protocol with deaths, faults and power losses (TLC; wrong designs refuted); the real process is ended in front of and "
             "inside every file operation of flush and create, TLC enumerates power-loss images of recorded histories, and what reopening shows is judged by the model")
NOTE = ("Storage model: directory operations become durable in order; file data only by fsync of that file, otherwise kept, lost or half kept. An interrupted "
        "creation may leave a directory that refuses to open.")


def deaths(ck, ex, engine, num, depth, rng, per):
    scripts, counts = [], []
    for g in diskc.histories(engine, num, depth, ck.seed + 5):
        head, cmds = diskc.single(g["head"]), g["cmds"][:-9]
        fl = diskc.flushes(cmds)
        for i in rng.sample(fl, min(per, len(fl))):
            child = " ; ".join(["O"] + diskc.pending(cmds, i) + ["F"])
            scripts.append((head, cmds[:i] + ["Z"], child, ["O"] + diskc.after(head, cmds, rng)))
        scripts.append((head, [], "C", ["O"] + diskc.after(head, [], rng) + ["Z", "X", "C"] + diskc.after(head, [], rng)))
        counts.append(len(fl))
    dry = [dict(head=h, cmds=p + ["K -1 0 " + c] + post) for h, p, c, post in scripts]
    runs = conf.conformance(ck, dry, "%s: undisturbed children" % engine, ex, "DiskCollTrace")
    by = {id(s): r for s, r in runs}
    out = []
    for d, (h, p, c, post) in zip(dry, scripts):
        if id(d) not in by:
            continue
        ops = [e for e in by[id(d)] if e["op"] == ("create" if c == "C" else "flush")]
        n = ops[sum(1 for x in p if x == "F") if c != "C" else 0]["nops"] if c == "C" else \
            next((e["nops"] for e in by[id(d)][marker(by[id(d)], p):] if e["op"] == "flush"), 0)
        for k in range(1, n + 1):
            for torn in (0, 1):
                cmds = p + ["K %d %d %s" % (k, torn, c)]
                # some die again on the way
                if rng.random() < 0.3:
                    cmds += ["K %d 0 %s" % (rng.randint(1, n), c)]
                out.append(dict(head=h, cmds=cmds + post))
    return out


def marker(run, p):
    """Index of the first event behind the prefix (one event per command; reset first)."""
    return 1 + len(p)


def power(ck, ex, engine, metric, rng, limit, base, n):
    dim = 4
    head = "%d %s %s -1 8 20 1" % (dim, metric, engine)
    R = lambda m: diskc.rows(head, m, rng)
    plan = ["C", "A 3,1 " + R(2), "F", "A 7,5 " + R(2), "A 9 " + R(1), "F", "F", "Z", "O", "A 20,48 " + R(2), "F", "Z"]
    rec = os.path.join(base, "rec%d" % n)
    cmds = []
    for j, c in enumerate(plan):
        cmds += [c, "M %d" % j]
    run, crashes = ex([dict(head=head + " record " + rec, cmds=cmds + ["H"])])
    if not run:
        raise vf.CheckError("the recorded run did not finish")
    events = [e for e in run[0][1] if e["op"] not in ("end",)]
    r = disk.Recording(disk.parse(rec))
    ch, t = disk.choices(r)
    ck.cover(states=t.distinct, transitions=t.generated)
    rng.shuffle(ch)
    ch.sort(key=lambda x: 0 if not x["keep"] and not x["half"] else 1)
    seen, out = set(), []
    for x in ch:
        img = r.image(x)
        done = max([int(m) for m in r.marks(x["n"])] + [-1])
        d = disk.digest(img, str(done))
        if d in seen:
            continue
        seen.add(d)
        if not any(p.startswith("/c") for p in img) and done < 0 and len(seen) > 2:
            continue
        tree = os.path.join(base, "t%d_%d" % (n, len(out)))
        disk.write(img, tree)
        nxt = plan[done + 1] if done + 1 < len(plan) else "-"
        pre = events[:1 + done + 1] + [dict(op="died", of="flush" if nxt == "F" else "create" if nxt == "C" else "other")]
        post = ["O"] + diskc.after(head, plan, rng)
        out.append(dict(head=head + " image " + tree, cmds=post, pre=pre, choice=x))
        if len(out) >= limit:
            break
    ck.note("%s %s: %d file operations recorded, %d choices, %d distinct images" % (engine, metric, len(r.ev), len(ch), len(out)))
    ck.cover(images=len(out))
    return out


def corrupt(e):
    if e["op"] == "size" and e["n"]:
        c = copy.deepcopy(e)
        c["n"] -= 1
        return c


def run(ck):
    T = ck.thorough
    rng = random.Random(ck.seed)
    vf.model_check(ck, "MCDiskColl", "MCDiskColl_thorough.cfg" if T else "MCDiskColl.cfg")
    for k, what in ((1, "naming a segment before it exists"), (2, "publishing unsynchronised data"), (5, "ignoring orphans when numbering")):
        vf.model_refutes(ck, "MCDiskColl", "MCDiskColl_bad%d.cfg" % k, what)
    ex = diskc.runner()
    for eng in ("flat", "vamana"):
        s = deaths(ck, ex, eng, *((4, 20, rng, 2) if not T else (60, 40, rng, 5)))
        runs = conf.conformance(ck, s, "%s: deaths at every file operation" % eng, ex, "DiskCollTrace")
        if eng == "flat":
            conf.binding_selftest(ck, runs, "DiskCollTrace", corrupt)
    with vf.Scratch("dimg", shm=True) as base:
        s = []
        for n, (e, m) in enumerate((("flat", "l2"), ("vamana", "l2"), ("flat", "cos"), ("flat", "ip"))):
            s += power(ck, ex, e, m, rng, 4000 if T else (150, 150, 60, 40)[n], base, n)
        conf.conformance(ck, s, "power losses", ex, "DiskCollTrace")
