"""Executing operation scripts on real code in isolated processes, and judging what was recorded with a specification."""
import json, os, shutil, subprocess, time
import vf


def key_of(s):
    return s.get("key") if isinstance(s, dict) else None


def events(w):
    out = []
    try:
        with open(w + "/o.ndjson") as f:
            for line in f:
                try:
                    out.append(json.loads(line))
                except ValueError:
                    break
    except FileNotFoundError:
        pass
    return out


def run_parts(launch, scripts, procs=7, timeout=400, alone=60):
    """Runs all scripts; returns (runs, crashes): runs = [(script, events)], crashes = [(script, events, how)].
    launch(part, workdir) starts a process that writes workdir/o.ndjson: a reset event per script, then its events, at last "end"."""
    runs, crashes, t0 = [], [], time.time()
    with vf.Scratch("coll", shm=True) as base:
        jobs, k = [], 0
        for j in range(min(procs, len(scripts))):
            part = scripts[j::procs]
            w = os.path.join(base, "p%d" % j)
            jobs.append((part, w, launch(part, w)))
        flaky = 0
        while jobs:
            part, w, pr = jobs.pop(0)
            how = None
            try:
                rc = pr.wait(timeout)
                if rc != 0:
                    how = "exit status %d" % rc
            except subprocess.TimeoutExpired:
                pr.kill()
                pr.wait()
                how = "no end within %d s" % timeout
            ev = events(w)
            done = vf.split_runs([e for e in ev if e.get("op") != "end"])
            err = open(w + "/err", errors="replace").read()[-1500:]
            shutil.rmtree(w, ignore_errors=True)
            if how is None and ev and ev[-1].get("op") == "end":
                runs += list(zip(part, done))
                continue
            n = max(0, len(done) - 1)
            runs += list(zip(part[:n], done[:n]))
            if not done:
                raise vf.CheckError("the driver did not start (%s): %s" % (how, err))
            again = 0
            for t in range(2):
                k += 1
                w2 = os.path.join(base, "a%d" % k)
                pr2 = launch([part[n]], w2)
                try:
                    rc2 = pr2.wait(alone)
                except subprocess.TimeoutExpired:
                    pr2.kill()
                    pr2.wait()
                    rc2 = -999
                ev2 = events(w2)
                shutil.rmtree(w2, ignore_errors=True)
                if rc2 != 0 or not ev2 or ev2[-1].get("op") != "end":
                    again += 1
            if again:
                crashes.append((part[n], done[n], "%s\n%s" % (how, err)))
            else:
                flaky += 1
                if flaky > 5:
                    raise vf.CheckError("the driver keeps stopping without a repeatable cause: %s %s" % (how, err))
            if len(crashes) >= 4 or (crashes and time.time() - t0 > 200):
                for _, _, q in jobs:
                    q.kill()
                    q.wait()
                break
            rest = part[n + 1:] if again else part[n:]
            if rest:
                k += 1
                w = os.path.join(base, "b%d" % k)
                jobs.append((rest, w, launch(rest, w)))
    return runs, crashes


def with_pre(s, ev):
    """Events recorded before the machine stopped stand in front of what was seen afterwards (instead of the reset event)."""
    return s["pre"] + ev[1:] if isinstance(s, dict) and s.get("pre") else ev


def conformance(ck, scripts, what, execute, module, cfg=None, chunk=4000, env=None, copies=1):
    """Executes the scripts and reports every one the specification rejects (twice).  With copies > 1 (concurrent
    histories) each further attempt runs that many copies, and two different histories rejected also count."""
    cfg = cfg or module + ".cfg"
    runs, crashes = execute(scripts)
    for s, ev, how in crashes:
        ck.violation("%s: the library stops (%s) in operation %d" % (what, how, len(ev)), dict(script=s, events=ev[-3:]),
                     key=key_of(s))
    ids = {id(r): s for s, r in runs}
    full = {id(r): with_pre(s, r) for s, r in runs}
    back = {id(full[id(r)]): r for _, r in runs}
    bad = vf.validate_runs(ck, module, cfg, [full[id(r)] for _, r in runs], chunk=chunk, env=env)
    conf, lone = 0, []
    for r, pos, out in bad[:8]:
        s = ids[id(back[id(r)])]
        for attempt in range(3):
            r2, c2 = execute([s] * copies)
            if c2:
                ck.violation("%s: the library stops (%s)" % (what, c2[0][2]), dict(script=s), key=key_of(s))
                conf += 1
                break
            if copies > 1:
                again = vf.validate_runs(ck, module, cfg, [with_pre(s, r3) for _, r3 in r2], chunk=chunk, env=env)
                t, rej = again[0][:2] if again else (None, None)
            else:
                t = with_pre(s, r2[0][1])
                rej, _ = vf.validate(module, cfg, t, env=env)
            if rej is not None:
                e = t[rej]
                ck.violation("%s: not allowed by %s: event %d %s" % (what, module, rej, json.dumps(e)[:1500]),
                             dict(script=s, rejected=rej, events=t[:rej + 1]), key=key_of(s))
                conf += 1
                break
        else:
            ck.note("one rejection did not repeat: %s" % json.dumps(r[pos])[:400])
            lone.append((s, r, pos))
        if conf >= 3:
            break
    if copies > 1 and conf + len(lone) >= 2:
        for s, r, pos in lone[:2]:
            ck.violation("%s: not allowed by %s: event %d %s" % (what, module, pos, json.dumps(r[pos])[:1500]),
                         dict(script=s, rejected=pos, events=r[:pos + 1]), key=key_of(s))
    n = sum(len(r) for _, r in runs)
    ops = {}
    for _, r in runs:
        for e in r:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    ck.note("%s: %d histories, %d events judged, %s" % (what, len(runs), n, json.dumps(ops, sort_keys=True)))
    if runs:
        ck.sample(dict(what=what, cfg=runs[0][0].get("cfg") if isinstance(runs[0][0], dict) else None, first=[e.get("op") for e in runs[0][1][:8]]))
    return runs


def binding_selftest(ck, runs, module, mutate, cfg=None, env=None):
    """Corrupts one recorded answer and requires the specification to reject it (guards against vacuity)."""
    if ck.violations:
        return
    tried = 0
    cfg = cfg or module + ".cfg"
    for s, r in runs:
        for i, e in enumerate(r):
            c = mutate(e)
            if c is not None:
                rej, _ = vf.validate(module, cfg, r[:i] + [c], env=env)
                if rej != i:
                    raise vf.CheckError("a corrupted %s event was accepted by %s" % (e["op"], module))
                tried += 1
                break
        if tried >= 2:
            break
    if not tried:
        raise vf.CheckError("no event to corrupt")
    ck.note("binding: %d corrupted traces rejected" % tried)


# ---------------------------------------------------------------- units of the C++ library
def exe_runner(exe, args=(), procs=7, timeout=300, alone=60, env=None):
    """Executor for a C++ harness (harness/cpp/common.hpp): a script is a list of command lines."""
    e = dict(os.environ, **(env or {}))

    def launch(part, w):
        os.makedirs(w)
        with open(w + "/s.txt", "w") as f:
            for s in part:
                f.write("\n".join(["reset " + s.get("head", "")] + s["cmds"]) + "\n")
        return subprocess.Popen([exe, w + "/s.txt", w + "/o.ndjson", w] + list(args), cwd=w, env=e, stdout=subprocess.DEVNULL,
                                stderr=open(w + "/err", "wb"))
    return lambda scripts: run_parts(launch, scripts, procs=procs, timeout=timeout, alone=alone)
