"""Shared machinery: building from /repo's working tree, running TLC, evidence and verdicts."""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPECS = os.path.join(VERIF, "specs")
HARN = os.path.join(VERIF, "harness")
PY = "/opt/vp/venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

INCS = ["-I" + HARN + "/shim", "-I" + HARN, "-I" + REPO + "/include", "-I" + REPO + "/python/include",
        "-I" + REPO + "/python/src", "-isystem", "/usr/include/concurrentqueue/moodycamel",
        "-isystem", "/usr/include/concurrentqueue", "-isystem", "/usr/include/eigen3"]
PYINCS = ["-isystem", "/usr/include/python3.12"]
FLAGS = ["-std=gnu++20", "-w", "-mavx2", "-mfma", "-fopenmp", "-DFMT_SHARED", "-DSPDLOG_FMT_EXTERNAL",
         "-DALAYA_LASER_USE_LIBAIO=1", "-fPIC", "-pthread"]
LIBS = ["-lrocksdb", "-lspdlog", "-lfmt", "-luring", "-laio", "-fopenmp", "-lpthread"]
HOOK = ["-DALAYA_VERIF_HOOKS=1"]


class CheckError(Exception):
    """The check could not give an answer (not a violation)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def _compile(src, obj, flags):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    env = dict(os.environ, CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_BASEDIR="/", CCACHE_NOHASHDIR="1",
               CCACHE_MAXSIZE="2G")
    cmd = (["ccache"] if shutil.which("ccache") else []) + ["g++"] + flags + ["-c", src, "-o", obj]
    r = sh(cmd, env=env)
    if r.returncode != 0:
        # a lost or failing cache must not decide anything: compile directly once
        r = sh(["g++"] + flags + ["-c", src, "-o", obj])
    return src, r


def compile_many(jobs):
    """jobs: [(src, obj, flags)] compiled 8 at a time."""
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for src, r in ex.map(lambda j: _compile(*j), jobs):
            if r.returncode != 0:
                raise CheckError("compilation of %s failed:\n%s" % (src, r.stdout[-4000:]))


def build_exe(name, sources, opt=("-O1", "-DNDEBUG"), extra=(), libs=None, shared=False, incs=()):
    d = os.path.join(BUILD, name)
    os.makedirs(d, exist_ok=True)
    flags = list(opt) + FLAGS + list(extra) + list(incs) + INCS
    jobs = [(s, os.path.join(d, hashlib.md5(s.encode()).hexdigest()[:8] + ".o"), flags) for s in sources]
    compile_many(jobs)
    out = os.path.join(d, name + (".so" if shared else ""))
    r = sh(["g++"] + list(extra) + (["-shared"] if shared else []) + ["-o", out] + [j[1] for j in jobs] +
           (LIBS if libs is None else libs))
    if r.returncode != 0:
        raise CheckError("link of %s failed:\n%s" % (name, r.stdout[-4000:]))
    return out


def build_pyext(full=True):
    """Rebuilds the real Python extension and copies the real Python package; returns the PYTHONPATH entry."""
    d = os.path.join(BUILD, "pyext")
    pkg = os.path.join(d, "pkg")
    shutil.rmtree(pkg, ignore_errors=True)
    os.makedirs(pkg)
    shutil.copytree(os.path.join(REPO, "python/src/alayalite"), os.path.join(pkg, "alayalite"),
                    ignore=shutil.ignore_patterns("*.so", "__pycache__"))
    np_inc = glob.glob("/opt/vp/venv/lib/python3*/site-packages/numpy/_core/include")
    flags = ["-O1", "-DNDEBUG", "-fvisibility=hidden"] + FLAGS + INCS + PYINCS + ["-I" + p for p in np_inc]
    srcs = [os.path.join(REPO, "python/src/pybind.cpp"), os.path.join(REPO, "python/src/diskann_bindings.cpp")] + \
        sorted(glob.glob(os.path.join(HARN, "pyext/*.cpp")))
    jobs = [(s, os.path.join(d, os.path.basename(s) + ".o"), flags) for s in srcs]
    compile_many(jobs)
    r = sh(["g++", "-shared", "-o", os.path.join(pkg, "alayalite/_alayalitepy.so")] + [j[1] for j in jobs] + LIBS)
    if r.returncode != 0:
        raise CheckError("link of the extension failed:\n" + r.stdout[-4000:])
    return pkg


def build_shim():
    d = os.path.join(BUILD, "shim")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "fsshim.so")
    r = sh(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", out, os.path.join(HARN, "preload/fsshim.c"), "-ldl", "-lpthread"])
    if r.returncode != 0:
        raise CheckError("the preload library does not build:\n" + r.stdout)
    return out


class Scratch:
    """A private scratch directory, always removed."""

    def __init__(self, tag="vf", shm=False):
        base = "/dev/shm" if shm and os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
        self.path = tempfile.mkdtemp(prefix="vf-%s-" % tag, dir=base)

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


# ---------------------------------------------------------------- TLC
class Tlc:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct states found", out)
        self.generated, self.distinct = (tuple(int(x.replace(",", "")) for x in m[-1]) if m else (0, 0))
        if not m:
            m = re.findall(r"Progress.*?: (\d[\d,]*) states checked", out) or \
                re.findall(r"The number of states generated: (\d[\d,]*)", out)
            self.generated = int(m[-1].replace(",", "")) if m else 0
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0
        self.ok = rc == 0
        self.violated = re.findall(r"(?:Invariant|Property|property) (\S+) (?:is|was) violated", out)


def tlc(module, cfg, env=None, workers=4, args=(), timeout=600, heap="4g", keep=None):
    """Runs TLC on specs/<module>.tla with specs/<cfg>; returns a Tlc result."""
    with Scratch("tlc") as md:
        cmd = ["timeout", str(timeout), "java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JAR,
               "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet" if False else "-Dvf=1",
               "tlc2.TLC", "-metadir", md, "-workers", str(workers), "-config", cfg] + list(args) + [module + ".tla"]
        r = sh(cmd, cwd=SPECS, env=dict(os.environ, **(env or {})))
    if keep:
        with open(keep, "w") as f:
            f.write(r.stdout)
    if r.returncode == 124:
        raise CheckError("TLC timed out on %s/%s" % (module, cfg))
    return Tlc(r.stdout, r.returncode)


def model_check(ck, module, cfg, workers=4, timeout=600, heap="6g", env=None):
    """Exhaustive check of the specification itself: anything but success is an error of the machinery."""
    r = tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, env=env)
    if not r.ok:
        raise CheckError("specification %s/%s does not satisfy its own properties:\n%s" % (module, cfg, (r.out[r.out.find("Error"):][:2500] if "Error" in r.out else r.out[-4000:])))
    ck.cover(states=r.distinct, transitions=r.generated)
    ck.note("model %s (%s): %d distinct states, %d transitions, depth %d" % (module, cfg, r.distinct, r.generated, r.depth))
    return r


def model_refutes(ck, module, cfg, what, workers=4, timeout=300, env=None, stuck=False):
    """A deliberately wrong variant of the design has to violate the specification's properties (or, with stuck, to get stuck)."""
    r = tlc(module, cfg, workers=workers, timeout=timeout, env=env)
    if stuck and r.rc == 11 and "Deadlock reached" in r.out:
        pass
    elif r.rc not in (12, 13) or "is violated" not in r.out and "was violated" not in r.out:
        raise CheckError("the wrong design %s/%s was not refuted:\n%s" % (module, cfg, r.out[-2000:]))
    ck.note("model %s (%s): wrong design refuted (%s)" % (module, cfg, what))


def gen_behaviours(module, cfg, num=None, depth=20, seed=1, env=None, timeout=300, workers=1):
    """Operation scripts produced by TLC from the specification (lines marked @@ by the Emit constraint)."""
    args = []
    if num:
        args = ["-simulate", "num=%d" % num, "-depth", str(depth + 3), "-seed", str(seed)]
    r = tlc(module, cfg, env=dict(env or {}, DEPTH=str(depth)), workers=workers, args=args, timeout=timeout)
    if r.rc != 0:
        raise CheckError("behaviour generation from %s/%s failed:\n%s" % (module, cfg, r.out[-3000:]))
    scripts, seen = [], set()
    for line in r.out.splitlines():
        line = line.strip()
        if line.startswith('"@@'):
            s = json.loads(line)[2:]
            if s not in seen:
                seen.add(s)
                scripts.append(json.loads(s))
    if not scripts:
        raise CheckError("no behaviours generated from %s/%s:\n%s" % (module, cfg, r.out[-3000:]))
    return scripts


def validate(module, cfg, trace, env=None, timeout=600, workers=1, heap="4g"):
    """Checks a recorded trace (list of events) against specs/<module>. Returns (None | rejected index, Tlc)."""
    with Scratch("trace") as d:
        p = os.path.join(d, "t.ndjson")
        with open(p, "w") as f:
            for e in trace:
                f.write(json.dumps(e) + "\n")
        r = tlc(module, cfg, env=dict(env or {}, TRACE=p), workers=workers, timeout=timeout, heap=heap)
    m = re.search(r"@@REJECTED (\d+)", r.out)
    if r.ok and not m:
        if "@@ACCEPTED" not in r.out:
            raise CheckError("trace validation of %s gave no verdict:\n%s" % (module, r.out[-3000:]))
        return None, r
    if m:
        return int(m.group(1)), r
    if r.violated:
        m = re.findall(r"/?\\? ?i = (\d+)", r.out)
        return (int(m[-1]) - 1 if m else 0), r
    if "Attempted to " in r.out and r.depth > 0:
        return r.depth - 1, r                      # the event does not even have the shape the specification allows
    raise CheckError("TLC failed while validating with %s:\n%s" % (module, (r.out[r.out.find("Error"):][:2500] if "Error" in r.out else r.out[-4000:])))


def split_runs(trace):
    """Splits a concatenated trace at its reset events."""
    runs, cur = [], []
    for e in trace:
        if e.get("op") == "reset" and cur:
            runs.append(cur)
            cur = []
        cur.append(e)
    if cur:
        runs.append(cur)
    return runs


def validate_runs(ck, module, cfg, runs, chunk=4000, workers=None, env=None, timeout=600, what="", par=4):
    """Validates many runs (each starting with its reset event), several TLC processes at a time.
    Returns the list of (run, rejected index in run, output)."""
    groups, cur, n = [], [], 0
    for r in runs:
        cur.append(r)
        n += len(r)
        if n >= chunk:
            groups.append(cur)
            cur, n = [], 0
    if cur:
        groups.append(cur)
    bad = []

    def one(g):
        out, rest = [], g
        while rest:
            flat = [e for r in rest for e in r]
            rej, res = validate(module, cfg, flat, env=env, timeout=timeout)
            ck.cover(trace_states=res.distinct)
            if rej is None:
                break
            pos = rej
            for k, r in enumerate(rest):
                if pos < len(r):
                    out.append((r, pos, res.out))
                    rest = rest[k + 1:]
                    break
                pos -= len(r)
            else:
                raise CheckError("rejected index beyond the trace")
            if len(out) >= 5:
                break
        return out

    with concurrent.futures.ThreadPoolExecutor(par) as ex:
        for o in ex.map(one, groups):
            bad += o
    ck.cover(traces=len(runs), events=sum(len(r) for r in runs))
    return bad


# ---------------------------------------------------------------- verdicts
def load_known():
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                known.append(m.groups())
    return known


class Check:
    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.c = dict(states=0, transitions=0, traces=0, events=0, trace_states=0, samples=0)
        self.extra = {}
        self.notes = []
        self.samples = []
        self.violations = []
        self.known_hit = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def cover(self, **kw):
        for k, v in kw.items():
            self.c[k] = self.c.get(k, 0) + v

    def note(self, s):
        self.notes.append(s)
        log("[%s %.0fs] %s" % (self.prop, time.time() - self.t0, s))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def violation(self, what, replay, key=None):
        """Reports a violation unless the known-findings file lists exactly this one."""
        for p, k, text in load_known():
            if p == self.prop and key is not None and k == key:
                self.known_hit.setdefault(k, text)
                return
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations)))
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, what=what, key=key, seed=self.seed, tier=self.tier, replay=replay), f, indent=1,
                      default=str)
        self.violations.append((what, path))
        log("[%s] violation: %s" % (self.prop, what[:2000]))

    def finish(self):
        wall = time.time() - self.t0
        cov = dict(states=self.c["states"] + self.c["trace_states"], transitions=max(1, self.c["transitions"]),
                   traces_validated_against_impl=self.c["traces"], samples=self.samples or self.notes[:5])
        cov.update({k: v for k, v in self.c.items() if k not in ("states", "transitions", "traces", "samples")})
        cov.update(self.extra)
        cov["notes"] = self.notes
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, wall_s=round(wall, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, text in self.known_hit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        for what, path in self.violations[:20]:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        sys.stdout.flush()
        return 1 if self.violations else 0
