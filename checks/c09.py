"""The client registry matches what was created and saved."""
import copy
import coll, conf, vf
LEVEL = "model_checking"
TECHNIQUE = ("TLA+ model of the client's names in memory and on disk (TLC exhaustive); model-generated histories replayed on the real Client, "
             "recorded listings, parameters and contents validated against the model")
NOTE = "Three names, both kinds, all metrics and quantisers, located and unlocated clients; names are plain file names."
DRV = "py/regdriver.py"


def corrupt(e):
    if e["op"] == "list" and e["cs"]:
        return dict(e, cs=e["cs"][1:])


def run(ck):
    T = ck.thorough
    vf.model_check(ck, "MCRegistry", "MCRegistry_thorough.cfg" if T else "MCRegistry.cfg")
    coll.pkg(ck)
    runs = []
    for k, (n, d) in enumerate(((400, 25), (150, 60)) if not T else ((1500, 25), (600, 60), (100, 200))):
        g = vf.gen_behaviours("RegistryGen", "RegistryGen.cfg", num=n, depth=d, seed=ck.seed * 10 + k)
        runs = coll.conformance(ck, g, "registry histories (depth %d)" % d, module="RegistryTrace", driver=DRV) or runs
    conf.binding_selftest(ck, runs, "RegistryTrace", corrupt)
