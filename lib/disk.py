"""Recorded file operations -> disk images after a power loss (the images are chosen by DiskImages.tla)."""
import hashlib, json, os
import vf


def parse(path):
    """Lines: n op a b off len dlen, followed by dlen bytes and a newline when dlen > 0."""
    ev = []
    with open(path, "rb") as f:
        while True:
            line = f.readline()
            if not line:
                return ev
            n, op, a, b, off, ln, dl = line.rstrip(b"\n").split(b"\t")
            data = b""
            if int(dl):
                data = f.read(int(dl))
                f.read(1)
            ev.append(dict(op=op.decode(), a=a.decode(), b=b.decode(), off=int(off), len=int(ln), data=data))


class Recording:
    """Resolves names to files so that data and names can be lost independently."""

    def __init__(self, ev):
        self.ev = ev
        ns, self.ino, nxt = {"": 1}, [], 2     # path -> file number; the root directory is 1
        for e in ev:
            op, a, b = e["op"], e["a"], e["b"]
            f = 0
            if op in ("create", "mkdir"):
                f = ns[a] = nxt
                nxt += 1
            elif op in ("write", "fsync", "truncate", "trunc"):
                f = ns.get(a, 0)
            elif op in ("unlink", "rmdir"):
                f = ns.pop(a, 0)
            elif op == "link":
                f = ns.get(a, 0)
                ns[b] = f
            elif op == "rename":
                f = ns.get(a, 0)
                for p in [p for p in ns if p == a or p.startswith(a + "/")]:
                    ns[b + p[len(a):]] = ns.pop(p)
            self.ino.append(f)

    META = ("create", "mkdir", "unlink", "rmdir", "link", "rename", "truncate", "trunc")

    def summary(self):
        out = []
        for e, f in zip(self.ev, self.ino):
            k = "meta" if e["op"] in self.META else {"write": "data", "fsync": "sync", "mark": "ack"}[e["op"]]
            out.append(dict(k=k, f=f))
        return out

    def image(self, c):
        """The files (and directories, value None) of one choice {n, m, keep, half}."""
        n, m, keep, half = c["n"], c["m"], set(c["keep"]), c["half"]
        synced = {}
        for i in range(n):
            if self.ev[i]["op"] == "fsync":
                synced[self.ino[i]] = i
        pend = [i for i in range(n) if self.ev[i]["op"] == "write" and self.ino[i] == half and i > synced.get(half, -1)]
        total = sum(self.ev[i]["len"] for i in pend)
        budget = total // 2
        ns, data, metas = {}, {}, 0
        for i in range(n):
            e, f = self.ev[i], self.ino[i]
            op, a, b = e["op"], e["a"], e["b"]
            if op in self.META:
                metas += 1
                if metas > m:
                    continue
            if op == "create":
                ns[a] = f
                data.setdefault(f, bytearray())
            elif op == "mkdir":
                ns[a] = f
            elif op in ("unlink", "rmdir"):
                ns.pop(a, None)
            elif op == "link":
                ns[b] = f
            elif op == "rename":
                for p in [p for p in ns if p == a or p.startswith(a + "/")]:
                    ns[b + p[len(a):]] = ns.pop(p)
            elif op in ("truncate", "trunc"):
                d = data.setdefault(f, bytearray())
                if len(d) > e["len"]:
                    del d[e["len"]:]
                else:
                    d.extend(b"\0" * (e["len"] - len(d)))
            elif op == "write":
                d = data.setdefault(f, bytearray())
                w = e["data"]
                if i > synced.get(f, -1):
                    if f == half:
                        w = w[:budget]
                        budget -= len(w)
                        if not w:
                            continue
                    elif f not in keep:
                        continue
                if len(d) < e["off"]:
                    d.extend(b"\0" * (e["off"] - len(d)))
                d[e["off"]:e["off"] + len(w)] = w
        return {p: (bytes(data[f]) if f in data else None) for p, f in ns.items()}

    def marks(self, n):
        """Labels of the acknowledgements seen among the first n operations."""
        return [e["a"] for e in self.ev[:n] if e["op"] == "mark"]


def digest(img, extra=""):
    h = hashlib.md5(extra.encode())
    for p in sorted(img):
        h.update(p.encode() + b"\0" + (img[p] if img[p] is not None else b"dir") + b"\1")
    return h.hexdigest()


def write(img, target):
    os.makedirs(target)
    for p in sorted(img):
        t = target + p
        if img[p] is None:
            os.makedirs(t, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(t), exist_ok=True)
            with open(t, "wb") as f:
                f.write(img[p])


def choices(rec, timeout=300):
    """All images of the specification for this recording."""
    s = rec.summary()
    with vf.Scratch("disk") as d:
        p = os.path.join(d, "t.ndjson")
        with open(p, "w") as f:
            for e in s:
                f.write(json.dumps(e) + "\n")
        r = vf.tlc("DiskImages", "DiskImages.cfg", env=dict(TRACE=p), workers=4, timeout=timeout)
    if not r.ok:
        raise vf.CheckError("DiskImages failed:\n" + r.out[-3000:])
    out = []
    for line in r.out.splitlines():
        line = line.strip()
        if line.startswith('"@@'):
            out.append(json.loads(json.loads(line)[2:]))
    if not out:
        raise vf.CheckError("no disk images:\n" + r.out[-2000:])
    return out, r
