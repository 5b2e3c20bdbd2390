"""Runs operation scripts on the real collection API and records what it answered (no judgement here).

usage: cdriver.py SCRIPTS.json OUT.ndjson WORKDIR
SCRIPTS.json: [{"cfg": {...}, "ops": [...]}, ...]; one event per line is appended to OUT, run by run.
"""
import json, os, sys, struct, shutil, math, logging
import numpy as np
logging.disable(logging.CRITICAL)

INTS = [-2**63, -2**63 + 1, -2**40, -256, -2, -1, 0, 1, 2, 255, 256, 2**31, 2**40, 2**63 - 2, 2**63 - 1]
DBLS = [-math.inf, -1.7976931348623157e308, -1e300, -256.5, -2.0, -1.0, -5e-324, 0.0, 5e-324, 0.5, 1.0, 2.0, 256.5, 1e300,
        1.7976931348623157e308, math.inf]
IRANK = {v: i for i, v in enumerate(INTS)}
DRANK = {v: i for i, v in enumerate(DBLS)}


def val(x):
    t, v = x["t"], x["v"]
    if t == "i":
        return INTS[v[0]]
    if t == "d":
        return -0.0 if x.get("z") else DBLS[v[0]]
    if t == "b":
        return bool(v[0])
    return "".join(map(chr, v))


def enc(p):
    if isinstance(p, bool):
        return {"t": "b", "v": [int(p)]}
    if isinstance(p, int):
        return {"t": "i", "v": [IRANK.get(p, -1)]}
    if isinstance(p, float):
        r = {"t": "d", "v": [DRANK.get(p, -1)]}
        if p == 0.0 and math.copysign(1, p) < 0:
            r["z"] = 1
        return r
    if isinstance(p, str):
        return {"t": "s", "v": [ord(c) for c in p]}
    return {"t": "?", "v": []}


def meta(m):
    return {e["f"]: val(e["x"]) for e in m}


def encm(d):
    return [{"f": k, "x": enc(d[k])} for k in sorted(d)]


def doc(n):
    return "" if n == 0 else "doc-%d" % n


def encd(s):
    if s == "":
        return 0
    try:
        return int(s[4:]) if s.startswith("doc-") else -1
    except ValueError:
        return -1


def num(x):
    x = float(x)
    return int(x) if math.isfinite(x) and x == int(x) and abs(x) < 2**30 else -99999999


class Runner:
    def __init__(self, out, work, mode="run"):
        self.fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
        self.work = work
        global alayalite, A
        import alayalite
        from alayalite import _alayalitepy as A

    def emit(self, e):
        os.write(self.fd, (json.dumps(e) + "\n").encode())

    def flt(self, f, native):
        if not native:
            return self.dict_filter(f)
        mf = A.MetadataFilter()
        mf.logic_op = {"and": A.LogicOp.AND, "or": A.LogicOp.OR, "not": A.LogicOp.NOT}[f["l"]]
        ops = {"eq": "EQ", "ne": "NE", "gt": "GT", "ge": "GE", "lt": "LT", "le": "LE", "in": "IN", "nin": "NOT_IN",
               "has": "CONTAINS"}
        conds = []
        for c in f["c"]:
            fc = A.FilterCondition()
            fc.field = c["f"]
            fc.op = getattr(A.FilterOp, ops[c["op"]])
            if c["op"] in ("in", "nin"):
                fc.values = [val(v) for v in c["vs"]]
            else:
                fc.value = val(c["v"])
            conds.append(fc)
        mf.conditions = conds
        for s in f["s"]:
            mf.add_sub_filter(self.flt(s, True))
        return mf

    @staticmethod
    def dict_ok(f):
        """Expressible in the Python filter dictionary: and/or of the supported comparisons, fields once."""
        if f["l"] == "not" or any(c["op"] in ("ne", "nin", "has") for c in f["c"]):
            return False
        if not all(Runner.dict_ok(s) for s in f["s"]):
            return False
        if f["l"] == "or":
            return len(f["c"]) + len(f["s"]) > 0
        return len({c["f"] for c in f["c"]}) == len(f["c"])

    def dict_filter(self, f):
        def cond(c):
            if c["op"] == "eq":
                return {c["f"]: val(c["v"])} if len(c["f"]) % 2 else {c["f"]: {"$eq": val(c["v"])}}
            if c["op"] == "in":
                return {c["f"]: {"$in": [val(v) for v in c["vs"]]}}
            return {c["f"]: {"$" + c["op"]: val(c["v"])}}
        if f["l"] == "or":
            return {"$or": [cond(c) for c in f["c"]] + [self.dict_filter(s) for s in f["s"]]}
        d = {}
        for c in f["c"]:
            d.update(cond(c))
        if f["s"]:
            d["$and"] = [self.dict_filter(s) for s in f["s"]]
        return d

    def mkflt(self, f, i=0):
        return self.flt(f, not self.dict_ok(f) or i % 2 == 1)

    # ---- opening and closing
    def open(self, cfg, path):
        self.cfg, self.path = cfg, path
        if cfg.get("persist", True):
            self.client = alayalite.Client(path)
        else:
            self.client = alayalite.Client()
        self.col = self.client.get_collection("c")
        self.existed = self.col is not None
        if self.col is None:
            kw = dict(metric={"cos": "cosine"}.get(cfg["metric"], cfg["metric"]), capacity=cfg["cap"] if cfg["cap"] >= 0 else 1000,
                      quantization_type=cfg.get("quant", "none"), max_nbrs=cfg.get("nbrs", 32),
                      indexed_fields=cfg.get("indexed", []), build_threads=cfg.get("threads", 1))
            if not cfg.get("persist", True):
                kw["rocksdb_path"] = os.path.join(path, "db")
            self.col = self.client.create_collection("c", **kw)

    def close(self):
        self.col.close()
        self.col = self.client = None

    def items(self, its):
        return [(i["id"], doc(i["d"]), np.array(i["x"], dtype=np.float32), meta(i["m"])) for i in its]

    def dump(self):
        made = self.col.get_index() is not None
        out = []
        if made:
            cpp = self.col.get_cpp_index()
            r = self.col.filter_query({}, limit=100000)
            for k in range(len(r["id"])):
                vec = np.asarray(cpp.get_data_by_id(r["internal_id"][k]))
                out.append({"id": r["id"][k], "d": encd(r["document"][k]), "m": encm(r["metadata"][k]),
                            "x": [num(v) for v in vec]})
        return {"op": "dump", "made": made, "out": out}

    def mutate(self, op, idx):
        k = op["op"]
        if k == "insert":
            self.col.insert(self.items(op["items"]))
        elif k == "upsert":
            self.col.upsert(self.items(op["items"]))
        elif k == "delete":
            self.col.delete_by_id(list(op["ids"]))
        elif k == "delby":
            return {"n": self.col.delete_by_filter(self.mkflt(op["flt"], idx), batch_size=op.get("batch", 1000))}
        elif k == "reindex":
            self.col.reindex(num_threads=op.get("threads"))
        elif k == "save":
            self.client.save_collection("c")
        elif k == "reopen":
            self.close()
            self.open(self.cfg, self.path)
        else:
            raise ValueError(k)
        return {}

    def dist(self, s):
        if self.cfg["metric"] == "cos":
            return int(round(float(s) * 1000)) if math.isfinite(s) and abs(s) < 1000 else -99999999
        return num(s)

    def observe(self, op, idx):
        k = op["op"]
        if k == "get":
            r = self.col.get_by_id(list(op["ids"]))
            out = [{"id": i, "d": encd(d), "m": encm(m)} for i, d, m in zip(r["id"], r["document"], r["metadata"])]
            return {"out": out}
        if k == "filter":
            r = self.col.filter_query(self.mkflt(op["flt"], idx), limit=op["limit"])
            out = [{"id": i, "d": encd(d), "m": encm(m), "n": int(n)} for i, d, m, n in
                   zip(r["id"], r["document"], r["metadata"], r["internal_id"])]
            return {"out": out}
        if k == "query":
            q = [op["q"]] if not op.get("more") else [op["q"]] + op["more"]
            r = self.col.batch_query([[float(v) for v in x] for x in q], op["k"], ef_search=op["ef"],
                                     num_threads=op.get("threads", 1))
            outs = []
            for row in range(len(q)):
                o = [{"id": i, "d": encd(d), "m": encm(m), "dist": self.dist(s)} for i, d, m, s in
                     zip(r["id"][row], r["document"][row], r["metadata"][row], r["distance"][row])]
                while o and o[-1]["id"] == "":
                    o.pop()
                outs.append(o)
            return {"outs": outs}
        if k == "hybrid":
            q = [op["q"]] if not op.get("more") else [op["q"]] + op["more"]
            f = self.mkflt(op["flt"], idx)
            hint = op.get("hint", "auto")
            if hint == "bf":
                cpp = self.col.get_cpp_index()
                f = self.col.build_filter(f)
                if len(q) == 1:
                    _, ids = cpp.hybrid_search(np.array(q[0], dtype=np.float32), op["k"], op["ef"], f, bf=True)
                    rows = [list(ids)]
                else:
                    _, ids = cpp.batch_hybrid_search(np.array(q, dtype=np.float32), op["k"], op["ef"], f, 2, bf=True)
                    rows = [list(r) for r in ids]
            else:
                arg = [float(v) for v in q[0]] if len(q) == 1 else [[float(v) for v in x] for x in q]
                rows = self.col.hybrid_query(arg, op["k"], metadata_filter=f, ef_search=op["ef"],
                                             num_threads=op.get("threads", 1), filter_execution_hint=hint)["id"]
            outs = []
            for row in rows:
                o = [{"id": i} for i in row]
                while o and o[-1]["id"] == "":
                    o.pop()
                outs.append(o)
            return {"outs": outs}
        raise ValueError(k)

    def step(self, op, idx):
        k = op["op"]
        if k in ("query", "hybrid"):
            qs = [op["q"]] + op.get("more", [])
            try:
                outs = self.observe(op, idx)["outs"]
            except Exception as e:
                self.emit({"op": "failed", "of": op, "exc": repr(e)[:300]})
                return
            for q, o in zip(qs, outs):
                ev = {"op": k, "q": q, "k": op["k"], "out": o, "exact": op["exact"], "ef": op["ef"]}
                if k == "hybrid":
                    ev["flt"] = op["flt"]
                    ev["hint"] = op.get("hint", "auto")
                self.emit(ev)
            return
        if k == "dump":
            self.emit(self.dump())
            return
        if k in ("get", "filter"):
            try:
                self.emit(dict(op, **self.observe(op, idx)))
            except Exception as e:
                self.emit({"op": "failed", "of": op, "exc": repr(e)[:300]})
            return
        ev = dict(op)
        try:
            ev.update(self.mutate(op, idx))
            ev["res"] = "ok"
        except Exception as e:
            ev["res"] = "err"
            ev["exc"] = repr(e)[:300]
            ev.setdefault("n", -1)
        self.emit(ev)

    def run(self, script, n):
        path = os.path.join(self.work, "r%d" % n)
        os.makedirs(path)
        self.emit({"op": "reset", "cap": script["cfg"]["cap"], "metric": script["cfg"]["metric"], "cfg": script["cfg"], "n": n})
        self.open(script["cfg"], path)
        for idx, op in enumerate(script["ops"]):
            self.step(op, idx)
        self.close()
        shutil.rmtree(path, ignore_errors=True)


def main():
    scripts = json.load(open(sys.argv[1]))
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    r = Runner(sys.argv[2], sys.argv[3])
    for n, s in enumerate(scripts):
        r.run(s, n)
    r.emit({"op": "end"})


if __name__ == "__main__":
    main()
