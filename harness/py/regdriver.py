"""Runs registry scripts on the real Client; records answers, judges nothing."""
import json, os, shutil, sys
import numpy as np
from alayalite import Client


def vec(i, cos):
    return [float(i % 50 + 1), float((i * 7) % 23 + 1), float(i)]


class Runner:
    def __init__(self, out, work):
        self.out, self.work = open(out, "w"), work

    def emit(self, e):
        self.out.write(json.dumps(e) + "\n")
        self.out.flush()

    def attempt(self, f):
        try:
            f()
            return "ok", ""
        except Exception as e:
            return "err", repr(e)[:300]

    def kwargs(self, kind, n, p):
        k = dict(metric="cosine" if p["metric"] == "cos" else p["metric"], max_nbrs=p["nbrs"], capacity=p["cap"], quantization_type=p["quant"])
        if kind == "c":
            k["indexed_fields"] = p["fields"]
            if not self.located:
                self.k += 1
                k["rocksdb_path"] = os.path.join(self.path, "mem%d" % self.k, "db")
        return k

    def fill(self, n, items):
        c, i = self.client.get_collection(n), self.client.get_index(n)
        if c is not None:
            c.insert([(str(x), "doc%d" % x, np.array(vec(x, 0), dtype=np.float32), {"c": "v%d" % x}) for x in items])
            return
        v = np.array([vec(x, 0) for x in items], dtype=np.float32)
        if n in self.fitted and i.get_cpp_index() is not None:
            have = self.fitted[n]
            if have & set(items):
                raise RuntimeError("not repeated on an index")      # indices have no item ids of their own
            for x in v:
                i.insert(x)
            self.fitted[n] = have | set(items)
        else:
            i.fit(v)
            self.fitted[n] = set(items)

    def look(self, n):
        c, i = self.client.get_collection(n), self.client.get_index(n)
        if c is None and i is None:
            return dict(kind="none", params=0, made=False, data=[])
        o = c if c is not None else i
        p = c.get_index_params() if c is not None else i.get_params()
        q = dict(metric={"cosine": "cos"}.get(p.metric or "l2", p.metric or "l2"), nbrs=p.max_nbrs, cap=int(p.capacity), quant=p.quantization_type,
                 fields=list(p.indexed_fields or []))
        if q["metric"] not in ("l2", "ip", "cos"):
            q["metric"] = "l2" if q["metric"] == "euclidean" else q["metric"]
        if c is not None:
            made = c.get_index() is not None
            data = []
            if made:
                r = c.filter_query({}, 1000)
                data = sorted(int(x) for x in r["id"])
                bad = [x for x, d in zip(r["id"], r["document"]) if d != "doc" + x]
                data += [-1] * len(bad)
            return dict(kind="c", params=q, made=made, data=data)
        made = i.get_cpp_index() is not None
        data = []
        if made:
            m = len(self.count.get(n, ()))
            for k in range(m):
                v = np.asarray(i.get_data_by_id(k), dtype=np.float64)
                best = [x for x in self.count[n] if self.same(v, vec(x, 0), q)]
                data.append(best[0] if len(best) == 1 else -1)
        return dict(kind="i", params=q, made=made, data=data)

    def same(self, v, w, q):
        w = np.array(w, dtype=np.float64)
        if q["metric"] == "cos":
            w = w / np.linalg.norm(w)
        return float(np.abs(v - w).max()) < 1e-5

    def step(self, o):
        op = o["op"]
        c = self.client
        if op in ("create", "goc"):
            f = {("create", "c"): c.create_collection, ("create", "i"): c.create_index, ("goc", "c"): c.get_or_create_collection,
                 ("goc", "i"): c.get_or_create_index}[(op, o["kind"])]
            p = dict(o["params"]) if o["kind"] == "c" else dict(o["params"], fields=[], quant="none")   # what the harness module builds
            fresh = c.get_index(o["n"]) is None
            r, x = self.attempt(lambda: f(o["n"], **self.kwargs(o["kind"], o["n"], p)))
            if r == "ok" and o["kind"] == "i" and fresh:
                self.fitted.pop(o["n"], None)
            self.emit(dict(o, params=p, res=r, exc=x))
        elif op == "fill":
            if c.get_collection(o["n"]) is None and c.get_index(o["n"]) is None:
                return self.emit(dict(o, res="none"))
            r, x = self.attempt(lambda: self.fill(o["n"], o["items"]))
            self.emit(dict(o, res=r, exc=x))
        elif op == "remove":
            if c.get_collection(o["n"]) is None:
                return self.emit(dict(o, res="none"))
            if c.get_collection(o["n"]).get_index() is None:
                return self.emit(dict(op="noop"))
            r, x = self.attempt(lambda: c.get_collection(o["n"]).delete_by_id([str(i) for i in o["items"]]))
            self.emit(dict(o, res=r, exc=x))
        elif op == "save":
            r, x = self.attempt(lambda: (c.save_collection if o["kind"] == "c" else c.save_index)(o["n"]))
            if r == "ok" and o["kind"] == "i":
                self.saved[o["n"]] = set(self.fitted[o["n"]])
            self.emit(dict(o, res=r, exc=x))
        elif op == "delete":
            r, x = self.attempt(lambda: (c.delete_collection if o["kind"] == "c" else c.delete_index)(o["n"], delete_on_disk=o["disk"]))
            self.emit(dict(o, res=r, exc=x))
        elif op == "wipe":
            r, x = self.attempt(lambda: c.reset(delete_on_disk=o["disk"]))
            self.emit(dict(o, res=r, exc=x))
        elif op == "reopen":
            c.reset()
            self.client = None
            r, x = self.attempt(self.open)
            self.fitted = dict(self.saved) if self.located else {}
            self.emit(dict(o, res=r, exc=x))
            if self.client is None:
                raise SystemExit
        self.count = self.fitted
        self.emit(dict(op="list", cs=sorted(self.client.list_collections()), **{"is": sorted(self.client.list_indices())}))
        if op == "look":
            e = {}
            r, x = self.attempt(lambda: e.update(self.look(o["n"])))
            self.emit(dict(o, **e) if r == "ok" else dict(op="failed", of=o, exc=x))

    def open(self):
        self.client = Client(os.path.join(self.path, "db")) if self.located else Client()

    def run(self, s, k):
        self.path = os.path.join(self.work, "r%05d" % k)
        os.makedirs(os.path.join(self.path, "db/not an entry/x"))
        os.chdir(self.path)
        self.located, self.k, self.fitted, self.saved, self.count = s["located"], 0, {}, {}, {}
        self.emit(dict(op="reset", located=self.located))
        self.open()
        try:
            for o in s["ops"]:
                self.step(o)
        except SystemExit:
            pass
        if self.client is not None:
            self.client.reset()
        os.chdir(self.work)
        shutil.rmtree(self.path, ignore_errors=True)


def main():
    scripts = json.load(open(sys.argv[1]))
    n = os.open(os.devnull, os.O_WRONLY)
    os.dup2(n, 1)
    r = Runner(sys.argv[2], sys.argv[3])
    for k, s in enumerate(scripts):
        r.run(s, k)
    r.emit({"op": "end"})


main()
