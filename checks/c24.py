"""Distance kernels compute the defined distance at every dimension and alignment, and read nothing outside the vectors."""
import copy, os
import conf, vf
LEVEL = "model_checking"
TECHNIQUE = ("TLA+ model of the blocked loops with their tails (every index once, none outside) for every dimension up to a bound, of the packed code layout and of the sixteen-bit "
             "accumulation trick, wrong designs refuted; model-generated dimensions, integer vectors and places beside unreadable pages run through every kernel of every "
             "instruction set present and through the dispatched one, judged by plain sums in the specification")
NOTE = ("Floating-point rounding is bounded, not reproduced; integer components make the float kernels exact. The estimates of one-bit codes are judged where they are exact up to the "
        "rounding of the query (residuals of one step along every axis). Instruction sets the machine lacks cannot be run.")
KNOWN = ["e4 6 11 0", "e4 7 12 0", "e4 33 13 0"]


def corrupt(e):
    c = copy.deepcopy(e)
    if e["op"] == "f" and e["dim"] > 2:
        c["l2"][1] += 1
        return c
    if e["op"] == "acc":
        c["r"][1 if len(e["r"]) > 1 else 0][31] += 1
        return c


def run(ck):
    T = ck.thorough
    for m in ("MCKernels", "MCKernelsPack", "MCKernelsWords"):
        vf.model_check(ck, m, m + ("_thorough" if T else "") + ".cfg", timeout=900)
    for m, k, what in (("MCKernels", 1, "the tail left out below one block"), ("MCKernels", 2, "the last pair not checked against the dimension"),
                       ("MCKernelsPack", 1, "lanes in plain order on one side only"), ("MCKernelsWords", 1, "the upper bytes not subtracted"),
                       ("MCKernelsWords", 2, "entries of eight bits whatever the dimension"), ("MCKernelsWords", 3, "sums read with a sign")):
        vf.model_refutes(ck, m, "%s_bad%d.cfg" % (m, k), what)
    src = [os.path.join(vf.HARN, "cpp/kernels.cpp")]
    wide = ["-mavx512f", "-mavx512bw", "-mavx512vl", "-mavx512dq"]
    has = "avx512vl" in open("/proc/cpuinfo").read()
    exes = [("AVX2 build", vf.build_exe("kernels", src))] + ([("AVX-512 build", vf.build_exe("kernels_wide", src, extra=wide))] if has else [])
    for n, (name, exe) in enumerate(exes):
        ex = conf.exe_runner(exe)
        for big, num, depth in (("0", 170, 60), ("1", 28, 6)) if not T else (("0", 3000, 60), ("1", 250, 6)):
            g = vf.gen_behaviours("KernelsGen", "KernelsGen.cfg", num=num, depth=depth, seed=ck.seed * 10 + n * 2 + int(big), env=dict(BIG=big))
            runs = conf.conformance(ck, g, "kernels (%s%s)" % (name, ", large" if big == "1" else ""), ex, "KernelsTrace", chunk=1500)
            if n == 0 and big == "0":
                conf.binding_selftest(ck, runs, "KernelsTrace", corrupt)
        if n == 0:
            for var in ("ALAYA_FORCE_SCALAR_L2", "ALAYA_FORCE_DISKANN_COMPAT_L2", "ALAYA_SIMD_DISTANCE_POLICY"):
                val = "avx512" if "POLICY" in var else "1"
                g = [dict(head="kernels", cmds=["f %d %d %d 9" % (d, ck.seed * 1000 + d, d % 3) for d in range(0, 70)])]
                conf.conformance(ck, g, "dispatch with %s=%s" % (var, val), conf.exe_runner(exe, env={var: val}), "KernelsTrace")
    runs, _ = conf.exe_runner(exes[0][1])([dict(head="kernels", cmds=KNOWN)])
    rej, out = vf.validate("KernelsTrace", "KernelsTrace_strict.cfg", runs[0][1])
    if rej is not None:
        ck.violation("the distance of two four-bit codes is not that of the vectors they decode to", dict(script=KNOWN, events=runs[0][1][:2]), key="sq4-halves")
