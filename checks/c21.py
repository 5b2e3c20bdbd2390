"""Tasks run exactly once, waiting ends, shutdown runs what was accepted; gate, pools, queues and locks keep their promises."""
import copy, os
import conf, vf
LEVEL = "model_checking"
TECHNIQUE = ("TLA+ models of thread pool, scheduler, gate and shared lock as built, all interleavings explored, fourteen wrong designs refuted; the library's own code run on logical "
             "threads whose interleaving is drawn from seeds, every recorded schedule judged by the TLA+ rules; the same programs on real threads under ThreadSanitizer")
NOTE = ("Schedules switch at every operation on std::mutex, condition_variable, atomic and thread, sequentially consistent; weaker memory orders are left to ThreadSanitizer. The "
        "scheduler and its queue are not run under it (the third-party queue relies on fences it cannot see). Coroutine library and pool of the gate are stand-ins.")
INCS = ["-I" + os.path.join(vf.HARN, "shim/fiber"), "-I/usr/include/concurrentqueue/moodycamel"]
SRC = [os.path.join(vf.HARN, "cpp/exec.cpp")]


def corrupt(e):
    c = copy.deepcopy(e)
    if e["op"] in ("run", "in"):
        c["k"] = 59
        return c
    if e["op"] in ("popd", "have", "took"):
        c["x"] = 77
        return c
    if e["op"] == "got":
        c["r"] = "0"
        return c


def run(ck):
    T = ck.thorough
    for m in ("MCTPool", "MCTPool_one", "MCSched", "MCGate", "MCLock"):
        vf.model_check(ck, m.split("_")[0], m + ("_thorough" if T else "") + ".cfg", timeout=900)
    for m, whats in (("MCTPool", ("waking one of several waiters", "dropping queued tasks at the end", "a task that stays in the queue", "waking one worker at the end")),
                     ("MCSched", ("workers that end when idle", "a suspended task put back into the queue", "counting steps as finished tasks", "ending without looking at the count")),
                     ("MCGate", ("handing out an object that stays free", "releasing past the waiters", "serving the last waiter first")),
                     ("MCLock", ("a reader's blind write", "exclusive over readers", "degrading to free"))):
        for k, what in enumerate(whats):
            vf.model_refutes(ck, m, "%s_bad%d.cfg" % (m, k + 1), what, stuck=True)
    try:
        ex = conf.exe_runner(vf.build_exe("exec", SRC, extra=["-DVF_FIBER"], incs=INCS))
        todo = ((("tp", 160, 14), ("sched", 140, 14), ("gate", 160, 12), ("pool", 100, 10), ("q", 120, 10), ("lock", 150, 12)) if not T else
                (("tp", 1500, 60), ("sched", 1200, 60), ("gate", 1500, 60), ("pool", 700, 30), ("q", 1000, 50), ("lock", 1200, 50)))
    except vf.CheckError as e:                             # code that the logical threads cannot carry: real threads only
        ck.note("logical threads left out: %s" % str(e)[:300])
        todo = ()
    seen = []
    for k, (fl, n, goes) in enumerate(todo):
        g = vf.gen_behaviours("ExecGen", "ExecGen.cfg", num=n, depth=3, seed=ck.seed * 10 + k, env={"FLAVOUR": fl, "GOES": str(goes)})
        runs = conf.conformance(ck, g, "%s programs (%d schedules each)" % (fl, goes), ex, "ExecTrace")
        seen += runs[:3]
    if seen:
        conf.binding_selftest(ck, seen, "ExecTrace", corrupt)
    tsan = vf.build_exe("exec_tsan", SRC, opt=["-O1", "-g", "-DNDEBUG"], extra=["-fsanitize=thread"], incs=INCS)
    ex = conf.exe_runner(tsan, env={"TSAN_OPTIONS": "exitcode=66 halt_on_error=1"})
    for k, (fl, n, goes) in enumerate((("real", 120, 15), ("lq", 30, 15)) if not T else (("real", 1500, 60), ("lq", 200, 60))):
        g = vf.gen_behaviours("ExecGen", "ExecGen.cfg", num=n, depth=3, seed=ck.seed * 10 + 7 + k, env={"FLAVOUR": fl, "GOES": str(goes)})
        conf.conformance(ck, g, "%s programs on real threads" % fl, ex, "ExecTrace")
