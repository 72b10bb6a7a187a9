"""The jobs of C12: concurrent evaluation of lazy values."""
import functools
import json
import os
import subprocess
import sys

C = sys.modules.get("check") or sys.modules["__main__"]


def mc(cfg, work, workers=2, timeout=800, expect_bad=False, replace=None):
    """Checks the model LazyConc."""
    res = C.Result()
    name = cfg
    if replace:
        name = "%s_%s.cfg" % (cfg[:-4], replace)
        src = open(os.path.join(C.SPEC, cfg)).read().replace('Design = "lib"', 'Design = "%s"' % replace)
        name = os.path.join(work, name)
        open(name, "w").write(src)
    (rc, out) = C.tlc("MCLazy.tla", name, {}, work, timeout, workers=workers, fast=False)
    (g, d) = C.states_of(out)
    res.mc_states += d
    res.mc_transitions += g
    if expect_bad:
        if "is violated" not in out and "Deadlock reached" not in out:
            res.errors.append("the broken design %s was not rejected: %s" % (replace, out[-500:]))
    elif rc != 0:
        res.errors.append("model %s: exit %s %s" % (cfg, rc, out[-1500:]))
    return res, out


def mc_job(cfg, work, **kw):
    return mc(cfg, work, **kw)[0]


def run(args, path, work, timeout, res):
    p = None
    try:
        p = subprocess.run([C.PY, os.path.join(C.HERE, "conc.py")] + args, cwd=work, env=C.py_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           text=True, errors="replace")
    except subprocess.TimeoutExpired:
        res.errors.append("conc.py %s timed out" % args[0])
    if p is not None and p.returncode == 0:
        info = json.loads(p.stdout.strip().splitlines()[-1])
        for k in ("runs", "complete", "followed", "histories"):
            if info.get(k):
                res.notes["schedules_" + k] = res.notes.get("schedules_" + k, 0) + info[k]
    elif p is not None and p.returncode < 0:
        res.verdicts.append(dict(clause="process-killed-by-signal-%d" % -p.returncode, props=["C12"],
                                 op="?", kind="lazy", l=0, n=0, history=[]))
    elif p is not None:
        res.errors.append("conc.py exit %s: %s" % (p.returncode, p.stderr[-1500:]))


def check(path, work, res):
    """Validates the executions in PATH.ndjson."""
    if not os.path.exists(path + ".ndjson"):
        return
    ev = C.read_trace(path + ".ndjson")
    meta = C.read_trace(path + ".meta")
    if not ev:
        return
    with open(path + ".ok", "w") as f:
        for e in ev:
            f.write(json.dumps(e) + "\n")
    (rc, out) = C.tlc("LazyTrace.tla", "LazyTrace.cfg", dict(PC_TRACE=path + ".ok"), work, 600)
    (g, d) = C.states_of(out)
    for v in C.printed(out, "VERDICT"):
        m = [x for x in meta if x["line"] <= v["l"]][-1]
        res.verdicts.append(dict(
            clause=v["clause"], props=["C12"], op=v["ev"], kind="lazy", l=v["l"], n=0,
            what=json.dumps(ev[m["line"] - 1:v["l"]][-12:]),
            schedule=dict(scenario=m["scenario"], choices=m["choices"], opcodes=m["opcodes"]),
            execution=ev[m["line"] - 1:v["l"]]))
    if rc != 0:
        res.errors.append("TLC exit %s on %s: %s" % (rc, path, out[-800:]))
    else:
        res.events += len(ev)
        res.histories += len(meta)
        res.transitions += max(g - 1, 0)
        res.states += d
        if not res.samples and len(ev) > 2:
            res.samples.append(ev[1:9])


def sched_job(name, args, work, timeout=400):
    res = C.Result()
    path = os.path.join(work, name)
    run([path if a == "@" else a for a in args], path, work, timeout, res)
    check(path, work, res)
    return res


def hist_job(work, opcodes, secs, part=0, parts=1):
    """Forces the histories of the model on the code."""
    (res, out) = mc("MCLazyHist.cfg", work)
    path = os.path.join(work, "hist%s_%d" % (opcodes, part))
    n = 0
    with open(path + ".h", "w") as f:
        for h in C.printed(out, "HIST"):
            if n % parts == part:
                f.write(json.dumps(h) + "\n")
            n += 1
    if n == 0:
        res.errors.append("no histories")
    run(["hist", "1", path + ".h", path, str(secs), opcodes], path, work, secs * 2 + 60, res)
    check(path, work, res)
    return res


def rerun(v, work):
    res = C.Result()
    src = os.path.join(work, "one.json")
    with open(src, "w") as f:
        json.dump(v["schedule"], f)
    path = os.path.join(work, "one")
    run(["one", src, path], path, work, 120, res)
    check(path, work, res)
    return res


def jobs(tier, seed, work):
    P = functools.partial
    quick = tier == "quick"
    res = [P(mc_job, "MCLazy.cfg" if quick else "MCLazyAll.cfg", work)]
    for op in ("0",) if quick else ("0", "1"):
        res.append(P(hist_job, work, op, 40 if quick else 400))
    for k in range(24):
        secs = 10 if quick else 300
        res.append(P(sched_job, "d%d" % k, ["dfs", "1", str(k), "@", "2" if quick else "3",
                                            "4000" if quick else "120000", str(secs), "0"],
                     work, secs * 2 + 60))
        if quick and k in (0, 1, 2, 7, 8):
            # at every bytecode
            res.append(P(sched_job, "do%d" % k, ["dfs", "1", str(k), "@", "2", "4000", "8", "1"], work, 90))
        if not quick:
            res.append(P(sched_job, "do%d" % k, ["dfs", "1", str(k), "@", "2", "60000", str(secs), "1"],
                         work, secs * 2 + 60))
    for k in range(4 if quick else 60):
        secs = 12 if quick else 120
        res.append(P(sched_job, "r%d" % k, ["random", str(seed * 1000 + k), "@", "3000" if quick else "20000",
                                            str(secs), str(k % 2)], work, secs * 2 + 60))
    if not quick:
        for d in ("nolock", "norecheck", "readyfirst", "failready", "keeplock", "staleread", "onelock",
                  "stripes"):
            res.append(P(mc_job, "MCLazy.cfg", work, expect_bad=True, replace=d))
    return res
