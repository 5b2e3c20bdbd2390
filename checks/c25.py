"""Encoded index keys sort and compare like their values; records decode back to themselves, and parts of them are refused."""
import copy, os
import conf, vf
LEVEL = "model_checking"
TECHNIQUE = ("TLA+ model of the key encoding over every integer and floating-point pattern of a small width, and of every record of a small size with every truncation, wrong "
             "designs refuted; model-generated 64-bit patterns, records and layouts, truncated and damaged, encoded and decoded by the library and judged by the specification")
NOTE = ("The order of encoded strings or of values of different kinds is not claimed. Damage that leaves a well-formed record (a byte inside a text) cannot be recognised and is not "
        "claimed; it must not crash or read outside the record (address sanitizer). Not-a-number and infinities are not ordered.")


def corrupt(e):
    c = copy.deepcopy(e)
    if e["op"] == "int" and e["p"] != e["q"]:
        c["x"], c["y"] = e["y"], e["x"]
        return c
    if e["op"] == "rec" and e["rec"]["meta"]:
        c["rec"]["meta"] = c["rec"]["meta"][1:]
        return c
    if e["op"] == "cut" and e["res"] == "error":
        c["res"] = "ok"
        return c


def run(ck):
    T = ck.thorough
    for m in ("MCCodecKeys", "MCCodecRecs"):
        vf.model_check(ck, m, "%s%s.cfg" % (m, "_thorough" if T else ""), timeout=900)
    for m, k, what in (("Keys", 1, "signs not flipped"), ("Keys", 2, "negative numbers not inverted"), ("Keys", 3, "zeroes of both signs kept apart"),
                       ("Recs", 1, "lengths not checked against what is left"), ("Recs", 2, "no check that the count of fields was met")):
        vf.model_refutes(ck, "MCCodec" + m, "MCCodec%s_bad%d.cfg" % (m, k), what)
    exe = vf.build_exe("codec", [os.path.join(vf.HARN, "cpp/codec.cpp")], extra=["-fsanitize=address"])
    ex = conf.exe_runner(exe)
    g = vf.gen_behaviours("CodecGen", "CodecGen.cfg", num=600 if not T else 6000, depth=60, seed=ck.seed * 10)
    runs = conf.conformance(ck, g, "numbers, records and layouts", ex, "CodecTrace")
    conf.binding_selftest(ck, runs, "CodecTrace", corrupt)
