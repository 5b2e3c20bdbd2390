"""Writes and snapshots are ordered against power loss."""
import copy, json, os, random
import c01, coll, disk, vf
LEVEL = "fault_enumeration"
TECHNIQUE = ("TLA+ model of the recovery design with volatile and stable storage (TLC); the real process' file operations are recorded, TLC "
             "enumerates the disk images a power loss may leave, the real recovery runs on them and is validated against the Collection model")
NOTE = ("Storage model: directory operations become durable in order and with any fsync; file data only with fsync of that file, otherwise kept, "
        "lost, or half kept per file. Images: every recorded operation as crash point x loss choices, de-duplicated, sampled in the quick tier.")
DRV = c01.DRV


def record(ck, c, rounds, base, n):
    rec = os.path.join(base, "rec%d" % n)
    rr = [dict(r, record=rec) for r in rounds]
    runs, crashes = coll.execute(ck, [dict(cfg=c, rounds=rr)], driver=DRV)
    if not runs:
        raise vf.CheckError("the recorded run did not finish: %s" % (crashes[:1],))
    return runs[0][1], disk.Recording(disk.parse(rec))


def order(rounds):
    out = []
    for j, r in enumerate(rounds):
        out.append(("%d.o" % j, dict(op="open")))
        out += [("%d.%d" % (j, i), o) for i, o in enumerate(r["ops"])]
        if r.get("end", "close") == "close":
            out.append(("%d.c" % j, dict(op="close")))
    return out


def prefix(events, rounds, marks):
    """What the caller had been told before the power went, and the operation in flight."""
    done = set(marks)
    o = order(rounds)
    labs = [l for l, _ in o]
    last = max([labs.index(m) for m in done] + [-1])
    ok = set(labs[:last + 1])
    pre = [e for e in events if e["op"] == "reset" or (e["lab"] in ok and e["op"] != "counts")]
    infl = o[last + 1][1] if last + 1 < len(o) else dict(op="none")
    return pre + [dict(op="died", of=infl)], last


def run(ck):
    T = ck.thorough
    vf.model_check(ck, "Recovery", "Power_thorough.cfg" if T else "Power.cfg", workers=8, timeout=800)
    vf.model_refutes(ck, "Recovery", "Power_bad1.cfg", "commit frames not forced to disk")
    vf.model_refutes(ck, "Recovery", "Power_bad2.cfg", "snapshot files not forced to disk")
    coll.shim()
    coll.pkg(ck)
    A, B = c01.scripts()
    plans = [("base", c01.cfg(), [dict(ops=A)]),
             ("after recovery", c01.cfg(), [dict(ops=B[:4], end="die"), dict(ops=A[1:2] + [dict(op="save")], end="die"), dict(ops=c01.POST[:3])])]
    if T:
        plans += [("sq8", c01.cfg("sq8"), [dict(ops=A), dict(ops=c01.POST[:3], end="die"), dict(ops=c01.POST[1:3])]),
                  ("sq4", c01.cfg("sq4"), [dict(ops=B, end="die"), dict(ops=c01.POST[:3], end="die"), dict(ops=[dict(op="save")])])]
        for i, s in enumerate(coll.generate("crash", 12, 10, ck.seed)):
            plans.append(("random %d" % i, s["cfg"], [dict(ops=s["ops"][:4], end="die"), dict(ops=s["ops"][4:7]), dict(ops=s["ops"][7:])]))
    rng = random.Random(ck.seed)
    limit = 2500 if T else 420
    with vf.Scratch("img", shm=True) as base:
        kept_run = None
        for n, (name, c, rounds) in enumerate(plans):
            c = dict(c)
            events, rec = record(ck, c, rounds, base, n)
            ch, r = disk.choices(rec)
            ck.cover(states=r.distinct, transitions=r.generated)
            seen, todo = set(), []
            rng.shuffle(ch)
            # losing everything that may be lost comes first, whatever the sample
            ch.sort(key=lambda x: 0 if not x["keep"] and not x["half"] else 1)
            for x in ch:
                pre, last = prefix(events, rounds, rec.marks(x["n"]))
                img = rec.image(x)
                d = disk.digest(img, str(last))
                if d not in seen:
                    seen.add(d)
                    todo.append((x, pre, img))
                if len(todo) >= limit // (1 if T else len(plans)):
                    break
            scripts = []
            for k, (x, pre, img) in enumerate(todo):
                tree = os.path.join(base, "t%d_%d" % (n, k))
                disk.write(img, tree)
                scripts.append(dict(cfg=c, image=dict(root=events[0]["path"], tree=tree), choice=x, pre=pre,
                                    rounds=[dict(ops=c01.POST[:3], end="die"), dict(ops=c01.GET)]))
            judge(ck, scripts, "power loss (%s)" % name)
            ck.cover(images=len(scripts))
            ck.note("%s: %d file operations, %d choices, %d distinct images examined" % (name, len(rec.ev), len(ch), len(scripts)))


def run_pre(s, ev):
    return s["pre"] + ev[1:]


def judge(ck, scripts, what):
    slim = [{k: v for k, v in s.items() if k != "pre"} for s in scripts]
    by = {json.dumps(a, sort_keys=True): b for a, b in zip(slim, scripts)}
    runs, crashes = coll.execute(ck, slim, driver=DRV)
    for s, ev, how in crashes:
        ck.violation("%s: the library stops (%s)" % (what, how), dict(script=s, events=ev[-3:]))
    full = []
    for s, r in runs:
        b = by[json.dumps(s, sort_keys=True)]
        full.append((b, b["pre"] + r[1:]))
    ids = {id(r): s for s, r in full}
    bad = vf.validate_runs(ck, "CollectionTrace", "CollectionTrace.cfg", [r for _, r in full])
    conf = 0
    for r, pos, out in bad[:8]:
        b = ids[id(r)]
        s = {k: v for k, v in b.items() if k != "pre"}
        for _ in range(3):
            r2, c2 = coll.execute(ck, [s], driver=DRV)
            if c2:
                continue
            t = b["pre"] + r2[0][1][1:]
            rej, _x = vf.validate("CollectionTrace", "CollectionTrace.cfg", t)
            if rej is not None:
                ck.violation("%s: not allowed: event %d %s after %s; choice %s" % (what, rej, json.dumps(t[rej])[:800], json.dumps(b["pre"][-1])[:300],
                                                                     b["choice"]), dict(script=b, events=t[:rej + 1]))
                conf += 1
                break
        if conf >= 3:
            break
    if full:
        # binding: dropping an acknowledged record from what recovery shows must be rejected
        for s, r in full:
            i = next((i for i, e in enumerate(r) if e["op"] == "dump" and len(e["out"]) > 1), None)
            if i is not None:
                c = copy.deepcopy(r[:i + 1])
                c[i]["out"] = []
                rej, _x = vf.validate("CollectionTrace", "CollectionTrace.cfg", c)
                if rej != i:
                    raise vf.CheckError("a recovery that lost everything was accepted")
                break
