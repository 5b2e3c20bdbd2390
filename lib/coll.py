"""Runs operation scripts on the real collection API and has the recorded answers judged by CollectionTrace."""
import json, os, subprocess, shutil
import conf, vf

PKG = None
SHIM = None


def pkg(ck):
    global PKG
    if PKG is None:
        PKG = vf.build_pyext()
        ck.note("extension rebuilt")
    return PKG


def shim():
    """Builds the file-operation shim and loads it into every driver started from here on."""
    global SHIM
    SHIM = vf.build_shim()


def _launch(pkgdir, scripts, w, driver="py/cdriver.py"):
    os.makedirs(w)
    json.dump(scripts, open(w + "/s.json", "w"))
    env = dict(os.environ, PYTHONPATH=pkgdir, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    if SHIM:
        env.update(LD_PRELOAD=SHIM, VF_SHIM=SHIM)
    env.pop("ALAYALITE_ROCKSDB_DIR", None)
    return subprocess.Popen([vf.PY, os.path.join(vf.HARN, driver), w + "/s.json", w + "/o.ndjson", w],
                            env=env, cwd=w, stdout=subprocess.DEVNULL, stderr=open(w + "/err", "wb"))


def execute(ck, scripts, procs=7, timeout=400, driver="py/cdriver.py", alone=60):
    p = pkg(ck)
    return conf.run_parts(lambda part, w: _launch(p, part, w, driver), scripts, procs, timeout, alone)


def conformance(ck, scripts, what, module="CollectionTrace", driver="py/cdriver.py", chunk=4000, env=None):
    """Executes the scripts and reports every one the specification rejects (twice)."""
    return conf.conformance(ck, scripts, what, lambda ss: execute(ck, ss, driver=driver), module, chunk=chunk, env=env)


def generate(mode, num, depth, seed, quant="none", cfg="CollectionGen.cfg", xset="base"):
    return vf.gen_behaviours("CollectionGen", cfg, num=num, depth=depth, seed=seed,
                             env=dict(MODE=mode, QUANT=quant, XSET=xset))


def binding_selftest(ck, runs, mutate=None):
    conf.binding_selftest(ck, runs, "CollectionTrace", mutate)
