"""Acknowledged writes survive a process crash at any point."""
import copy, random
import coll, vf
LEVEL = "fault_enumeration"
TECHNIQUE = ("TLA+ model of the log/snapshot/recovery design checked by TLC with crashes between all steps; the real process is killed at "
             "every file operation (whole and torn writes) and what it recovers is validated against the TLA+ Collection model")
NOTE = ("Every file operation of the scripted histories is a crash point (also during recovery), plus random multi-round histories from the "
        "model. Process death only (the kernel keeps completed writes); power loss is C02. Batches count as their single-record operations.")
DRV = "py/crashdriver.py"


def it(i, d, x, v=97):
    return dict(id=i, d=d, m=[{"f": "c", "x": {"t": "s", "v": [v]}}], x=x)


EQ = dict(l="and", c=[dict(f="c", op="eq", v={"t": "s", "v": [97]}, vs=[])], s=[])


def cfg(quant="none"):
    return dict(cap=-1, metric="l2", indexed=["c"], threads=1, nbrs=32, quant=quant, persist=True, big=False)


def scripts():
    first = dict(op="insert", items=[it("a", 1, [1, 0, 0]), it("b", 2, [0, 1, 0])])
    A = [first, dict(op="insert", items=[it("c", 3, [0, 0, 1])]), dict(op="upsert", items=[it("a", 4, [2, 0, 0])]),
         dict(op="delete", ids=["b"]), dict(op="save"), dict(op="insert", items=[it("d", 5, [0, 0, 2])]), dict(op="reindex"),
         dict(op="upsert", items=[it("c", 6, [0, 2, 2], 98)])]
    B = [first, dict(op="delby", flt=EQ, batch=1), dict(op="insert", items=[it("b", 7, [1, 1, 1]), it("e", 8, [2, 1, 1])]),
         dict(op="upsert", items=[it("e", 9, [2, 2, 1]), it("f", 1, [2, 2, 2])]), dict(op="save"), dict(op="delete", ids=["e", "b"])]
    return A, B


POST = [dict(op="insert", items=[it("e", 7, [3, 0, 0])]), dict(op="insert", items=[it("a", 8, [3, 1, 0])]),
        dict(op="upsert", items=[it("b", 9, [3, 1, 1])]),
        dict(op="query", q=[1, 0, 0], k=8, ef=60, exact=True, threads=1, more=[]), dict(op="filter", flt=EQ, limit=100)]
GET = [dict(op="get", ids=["a", "b", "c", "d", "e", "f"])]


def counts(ck, c, rounds):
    runs, crashes = coll.execute(ck, [dict(cfg=c, rounds=rounds)], driver=DRV)
    if not runs:
        raise vf.CheckError("the crash-free run did not finish: %s" % (crashes[:1],))
    return [e for e in runs[0][1] if e["op"] == "counts"]


def split(rng, s):
    """Cuts a generated history into rounds that end by a crash somewhere."""
    ops, rounds = s["ops"], []
    while ops:
        n = rng.randint(1, 4)
        part, ops = ops[:n], ops[n:]
        steps = sum({"save": 70, "reindex": 110}.get(o["op"], 12) for o in part) + (90 if not rounds else 0)
        w = rng.random()
        if w < 0.2 and rounds:
            rounds.append(dict(ops=[], kill=rng.randint(1, 110), torn=rng.randint(0, 1), at="open"))
        if w < 0.75:
            rounds.append(dict(ops=part, kill=rng.randint(1, steps), torn=rng.randint(0, 1)))
        else:
            rounds.append(dict(ops=part, end="die" if w < 0.9 else "close"))
    rounds.append(dict(ops=[]))
    return dict(cfg=s["cfg"], rounds=rounds)


def corrupt(e):
    if e["op"] == "dump" and e["out"]:
        c = copy.deepcopy(e)
        c["out"].pop()
        return c


def run(ck):
    T = ck.thorough
    vf.model_check(ck, "Recovery", "Recovery_thorough.cfg" if T else "Recovery.cfg", workers=8, timeout=800)
    for n, what in ((1, "torn tail kept"), (2, "rebuilt snapshot does not cover the log"), (3, "log dropped first")):
        vf.model_refutes(ck, "Recovery", "Recovery_bad%d.cfg" % n, what)
    coll.shim()
    coll.pkg(ck)
    rng = random.Random(ck.seed)
    s = []
    for quant in (("none", "sq8") if T else ("none",)):
        for n, ops in enumerate(scripts()):
            if n == 1 and not T:
                ops = ops[:4]
            c = cfg(quant)
            N = counts(ck, c, [dict(ops=ops, end="close")])[0]["ops"]
            ck.note("script %s/%s: %d file operations" % ("AB"[n], quant, N))
            for k in range(1, N + 1):
                for torn in (0, 1):
                    if torn and k % 2 and not T:
                        continue
                    s.append(dict(cfg=c, rounds=[dict(ops=ops, kill=k, torn=torn), dict(ops=POST, end="die"), dict(ops=GET)]))
    # dying during recovery, with operations to replay, twice
    c = cfg()
    pre = dict(ops=scripts()[0][:4], end="die")
    N = counts(ck, c, [pre, dict(ops=[])])[1]["open"]
    ck.note("recovery: %d file operations" % N)
    for k in range(1, N + 1):
        for torn in ((0, 1) if T else (k % 2,)):
            s.append(dict(cfg=c, rounds=[pre, dict(ops=[], kill=k, torn=torn, at="open"),
                                         dict(ops=POST[:3], end="die") if k % 2 else
                                         dict(ops=[], kill=rng.randint(1, N), torn=1, at="open"), dict(ops=POST)]))
    ck.cover(crash_points=len(s))
    runs = coll.conformance(ck, s, "every crash point", driver=DRV)
    died = sum(1 for _, r in runs for e in r if e["op"] == "died")
    ck.cover(crashes=died)
    if died < len(s) // 2:
        raise vf.CheckError("only %d of %d runs were interrupted" % (died, len(s)))
    g = []
    for q, n in (("none", 60), ("sq8", 20)):
        g += coll.generate("crash", n * (15 if T else 1), 12, ck.seed, q)
    runs2 = coll.conformance(ck, [split(rng, x) for x in g], "random histories with crashes", driver=DRV)
    ck.cover(crashes=sum(1 for _, r in runs2 for e in r if e["op"] == "died"))
    coll.binding_selftest(ck, runs, mutate=corrupt)
