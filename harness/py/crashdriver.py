"""Runs scripts in rounds; every round is a process of its own that opens the collection, works on it and may be
ended at a chosen file operation (fsshim).  Records what the processes saw; judges nothing.

usage: crashdriver.py SCRIPTS.json OUT.ndjson WORKDIR
script: {"cfg":..., "rounds":[{"ops":[..], "kill":k, "torn":0|1, "at":"ops"|"open", "end":"close"|"die"}]}
"""
import ctypes, json, os, shutil, signal, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cdriver import Runner

L = ctypes.CDLL(os.environ["VF_SHIM"])
L.vf_count.restype = ctypes.c_long


class Crash(Runner):
    lab = ""

    def emit(self, e):
        super().emit(dict(e, lab=self.lab))

    def begin(self, op, lab=None):
        if lab:
            self.lab = lab
        self.emit({"op": "begin", "of": op})

    def child(self, cfg, path, rd, first, j):
        at = rd.get("at", "ops")
        kill = rd.get("kill", -1)
        rec = rd.get("record", "")
        L.vf_start(path.encode(), ctypes.c_long(kill if at == "open" else -1), rd.get("torn", 0), ctypes.c_long(-1),
                   ctypes.c_long(0), 0, b"", rec.encode(), 1 if rec else 0)
        self.begin({"op": "open"}, "%d.o" % j)
        try:
            self.open(cfg, path)
            if not first:
                self.emit({"op": "reopen", "res": "ok"})
                self.emit(self.dump())
        except Exception as e:
            self.emit({"op": "reopen", "res": "err", "exc": repr(e)[:500]})
            os._exit(0)
        n_open = L.vf_count()
        L.vf_arm(ctypes.c_long(kill if at == "ops" else -1), rd.get("torn", 0))
        if rec:
            L.vf_mark(self.lab.encode())
        for idx, op in enumerate(rd["ops"]):
            if self.col.get_index() is None and op["op"] not in ("insert", "upsert", "get", "delete", "dump"):
                continue          # the first batch did not survive: nothing to ask or save yet
            self.begin(op, "%d.%d" % (j, idx))
            self.step(op, idx)
            if rec:
                L.vf_mark(self.lab.encode())
        if rd.get("end", "close") == "close":
            self.begin({"op": "close"}, "%d.c" % j)
            self.close()
        n_ops = L.vf_count()
        self.emit({"op": "counts", "open": n_open, "ops": n_ops})
        os._exit(0)

    def run(self, script, n):
        path = os.path.join(self.work, "r%05d" % n).ljust(72, "_")      # equal lengths: images can be moved
        os.makedirs(path)
        self.emit({"op": "reset", "cap": script["cfg"]["cap"], "metric": script["cfg"]["metric"], "cfg": script["cfg"], "n": n, "path": path})
        if script.get("image"):
            os.rmdir(path)
            old, img = script["image"]["root"], script["image"]["tree"]
            shutil.copytree(img, path, symlinks=True)
            for base, _, files in os.walk(path):
                for f in files:
                    p = os.path.join(base, f)
                    d = open(p, "rb").read()
                    if old.encode() in d:          # schema.json, *.snapshot and OPTIONS-* hold the absolute path
                        assert len(old) == len(path)
                        open(p, "wb").write(d.replace(old.encode(), path.encode()))
        for j, rd in enumerate(script["rounds"]):
            pid = os.fork()
            if pid == 0:
                try:
                    self.child(script["cfg"], path, rd, j == 0 and not script.get("image"), j)
                except BaseException as e:
                    try:
                        self.emit({"op": "failed", "of": {"op": "driver"}, "exc": repr(e)[:500]})
                    finally:
                        os._exit(0)
            t0 = time.time()
            while True:
                p, st = os.waitpid(pid, os.WNOHANG)
                if p:
                    break
                if time.time() - t0 > 60:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    st = None
                    break
                time.sleep(0.002)
            if st is None:
                self.emit({"op": "failed", "of": {"op": "hang"}, "round": j})
            elif os.WIFSIGNALED(st):
                sig = os.WTERMSIG(st)
                if sig == signal.SIGKILL and rd.get("kill", -1) > 0:
                    self.emit({"op": "died"})
                else:
                    self.emit({"op": "failed", "of": {"op": "signal %d" % sig}, "round": j})
            elif os.WEXITSTATUS(st) != 0:
                self.emit({"op": "failed", "of": {"op": "exit %d" % os.WEXITSTATUS(st)}, "round": j})
        shutil.rmtree(path, ignore_errors=True)


def tidy(path):
    """begin/result pairs -> one event; an unanswered begin before 'died' -> what the process died in."""
    out, pend = [], None
    for line in open(path):
        e = json.loads(line)
        if e["op"] == "begin":
            pend = e["of"]
        elif e["op"] == "died":
            out.append({"op": "died", "of": pend or {"op": "none"}})
            pend = None
        else:
            out.append(e)
            pend = None
    with open(path, "w") as f:
        for e in out:
            f.write(json.dumps(e) + "\n")


def main():
    scripts = json.load(open(sys.argv[1]))
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    r = Crash(sys.argv[2], sys.argv[3])
    for n, s in enumerate(scripts):
        r.run(s, n)
    r.emit({"op": "end"})
    tidy(sys.argv[2])


if __name__ == "__main__":
    main()
