"""The jobs of C22: calls of several threads at once."""
import functools
import json
import os
import subprocess
import sys

C = sys.modules.get("check") or sys.modules["__main__"]


def mc(cfg, work, design="lib"):
    """Checks the model Threads; returns (result, output)."""
    res = C.Result()
    name = os.path.join(work, "%s_%s.cfg" % (cfg[:-4], design))
    with open(name, "w") as f:
        f.write(open(os.path.join(C.SPEC, cfg)).read().replace('Design = "lib"', 'Design = "%s"' % design))
    (rc, out) = C.tlc("Threads.tla", name, {}, work, 400, workers=2, fast=False)
    (g, d) = C.states_of(out)
    res.mc_states += d
    res.mc_transitions += g
    if design != "lib":
        if "is violated" not in out:
            res.errors.append("the broken design %s was not rejected: %s" % (design, out[-500:]))
    elif rc != 0:
        res.errors.append("model %s: exit %s %s" % (cfg, rc, out[-1500:]))
    return res, out


def mc_job(cfg, work, design="lib"):
    return mc(cfg, work, design)[0]


def run(args, path, work, timeout, res):
    """Runs threads.py and validates what it recorded."""
    p = None
    try:
        p = subprocess.run([C.PY, os.path.join(C.HERE, "threads.py")] + args, cwd=work, env=C.py_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           text=True, errors="replace")
    except subprocess.TimeoutExpired:
        res.errors.append("threads.py %s timed out" % args[0])
    if p is not None and p.returncode == 0:
        info = json.loads(p.stdout.strip().splitlines()[-1])
        for k in ("runs", "complete", "scenarios"):
            if info.get(k):
                res.notes["schedules_" + k] = res.notes.get("schedules_" + k, 0) + info[k]
        for b in info.get("bad", ()):
            res.errors.append("the generator failed: " + b)
    elif p is not None and p.returncode < 0:
        res.verdicts.append(dict(clause="process-killed-by-signal-%d" % -p.returncode, props=["C22"],
                                 op="?", kind="?", l=0, n=0, history=[]))
    elif p is not None:
        res.errors.append("threads.py exit %s: %s" % (p.returncode, p.stderr[-1500:]))
    if not os.path.exists(path + ".ndjson"):
        return
    ev = C.read_trace(path + ".ndjson")
    meta = C.read_trace(path + ".meta")
    part = C.Result()
    C.validate(path + ".ndjson", path + ".universe", work, part)
    for m in meta:
        if m["stuck"]:
            part.verdicts.append(dict(clause="stuck", props=["C22"], op="?", kind="?", l=m["line"], n=0,
                                      history=ev[m["line"] - 1:]))
    for v in part.verdicts:
        v["props"] = sorted(set(v["props"]) | {"C22"})
        h = v["history"]
        for m in meta:
            if h and ev[m["line"] - 1:m["line"] - 1 + len(h)] == h:
                v["threads"] = {k: m[k] for k in ("scenario", "choices", "opcodes")}
                break
    res.add(part)
    for x in (".ndjson", ".ndjson.ok", ".meta", ".universe"):
        if os.path.exists(path + x):
            os.remove(path + x)


def job(name, args, work, timeout):
    res = C.Result()
    path = os.path.join(work, name)
    run([path if a == "@" else a for a in args], path, work, timeout, res)
    return res


def order_job(name, seed, work, secs, opcodes):
    """Forces the orders of the model on the code."""
    (res, out) = mc("ThreadsOrders.cfg", work)
    path = os.path.join(work, name)
    orders = {json.dumps(h) for h in C.printed(out, "ORDER")}
    if not orders:
        res.errors.append("no orders")
        return res
    with open(path + ".orders", "w") as f:
        f.write("\n".join(sorted(orders)) + "\n")
    run(["model", str(seed), path, path + ".orders", str(secs), opcodes], path, work, secs * 2 + 60, res)
    return res


def rerun(v, work):
    res = C.Result()
    src = os.path.join(work, "one.json")
    with open(src, "w") as f:
        json.dump(v["threads"], f)
    path = os.path.join(work, "one")
    run(["one", src, path], path, work, 120, res)
    return res


KINDS = "pl,tl,ll,tll,ps,ts,pd,td,ld,tld"


def jobs(tier, seed, work):
    P = functools.partial
    quick = tier == "quick"
    res = [P(mc_job, "Threads.cfg", work)]
    parts = 8 if quick else 16
    for i in range(parts):
        s = 90 if quick else 900
        res.append(P(job, "p%d" % i, ["pairs", str(seed * 1000 + i), "@", KINDS, "1", str(s), "0", str(i), str(parts)],
                     work, s * 2 + 60))
        if not quick:
            res.append(P(job, "q%d" % i, ["pairs", str(seed * 1000 + 500 + i), "@", KINDS, "2", str(s), "0", str(i),
                                          str(parts)], work, s * 2 + 60))
            res.append(P(job, "o%d" % i, ["pairs", str(seed * 1000 + 700 + i), "@", KINDS, "1", str(s), "1", str(i),
                                          str(parts)], work, s * 2 + 60))
    for i in range(4 if quick else 24):
        s = 25 if quick else 300
        res.append(P(order_job, "m%d" % i, seed * 1000 + i, work, s, str(i % 2)))
        res.append(P(job, "r%d" % i, ["random", str(seed * 1000 + i), "@", str(s), str(i % 2)], work, s * 2 + 60))
    if not quick:
        for d in ("scratch", "early", "cached", "inplace"):
            res.append(P(mc_job, "Threads.cfg", work, d))
    return res
