"""Decides one property: check.py PROPERTY quick|thorough
   or runs a recorded violation again: check.py replay FILE

Exit 0: the property held on everything explored.  Exit 1, with lines
"VIOLATION property=<id> replay=<path>": it is broken.  Anything else is an
error of the machinery.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("PC_REPO", "/repo")
PY = "/opt/venv/bin/python"
JARS = ("/opt/veriftools/tla/tla2tools.jar:"
        "/opt/veriftools/tla/CommunityModules-deps.jar")
CORES = 8


class Machinery(Exception):
    pass


ABC = {"C21"}       # decided on the minimal classes of harness/minimal.py


def py_env(prop=""):
    env = dict(os.environ)
    env.pop("PC_ABC", None)
    if prop in ABC:
        env["PC_ABC"] = "1"
    env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    return env


def tlc(module, cfg, env, work, timeout, workers=1, heap="3g", extra=(), fast=True):
    """Runs TLC; returns (exit code, output)."""
    meta = tempfile.mkdtemp(prefix="md", dir=work)
    e = dict(os.environ)
    e.update(env)
    cmd = ["java", "-XX:+UseSerialGC"] if workers == 1 else ["java", "-XX:+UseParallelGC"]
    if fast:
        cmd.append("-XX:TieredStopAtLevel=1")
    cmd += ["-Xss64m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
            "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True,
                           errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        return -1, (o if isinstance(o, str) else o.decode("utf-8", "replace"))
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def states_of(out):
    """(states generated, distinct states) as TLC reports them."""
    g = d = 0
    for line in out.splitlines():
        if "states generated," in line and "distinct states found" in line:
            w = line.replace(",", "").split()
            try:
                g = int(w[w.index("states") - 1])
                d = int(w[w.index("distinct") - 1])
            except ValueError:
                pass
    return g, d


def printed(out, tag):
    """The JSON values that the specification printed with a tag."""
    res = []
    for line in out.splitlines():
        if line.startswith('"%s ' % tag):
            res.append(json.loads(json.loads(line)[len(tag) + 1:]))
    return res


def read_trace(path):
    ev = []
    with open(path) as f:
        for line in f:
            try:
                ev.append(json.loads(line))
            except ValueError:
                break           # the driver was stopped while writing
    return ev


def history_of(ev, l):
    """The events of the history that line l (from 1) belongs to."""
    b = l - 1
    while b > 0 and ev[b]["op"] != "begin":
        b -= 1
    return ev[b:l]


class Result:
    def __init__(self):
        self.verdicts = []      # dicts: clause, props, op, kind, history (events)
        self.events = 0
        self.histories = 0
        self.states = 0
        self.transitions = 0
        self.samples = []
        self.ops = {}
        self.notes = {}
        self.errors = []
        self.uneval = []        # histories that the specification could not evaluate
        self.mc_states = 0
        self.mc_transitions = 0
        self.more = []          # further jobs

    def add(self, o):
        self.verdicts += o.verdicts
        for k in ("events", "histories", "states", "transitions", "mc_states", "mc_transitions"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.samples += o.samples[:2]
        for (k, v) in o.ops.items():
            self.ops[k] = self.ops.get(k, 0) + v
        for (k, v) in o.notes.items():
            if isinstance(v, (int, float)):
                self.notes[k] = self.notes.get(k, 0) + v
            else:
                self.notes[k] = v
        self.errors += o.errors
        self.uneval += o.uneval


def validate(trace, uni, work, res, timeout=400):
    """Checks a recorded trace against the specification (CollTrace)."""
    ev = read_trace(trace)
    good = trace + ".ok"
    for attempt in range(4):
        if not ev:
            return
        with open(good, "w") as f:
            for e in ev:
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
        (rc, out) = tlc("CollTrace.tla", "CollTrace.cfg",
                        dict(PC_TRACE=good, PC_UNIVERSE=uni), work, timeout)
        (g, d) = states_of(out)
        for v in printed(out, "VERDICT"):
            v["history"] = history_of(ev, v["l"])
            res.verdicts.append(v)
        if rc == 0:
            res.events += len(ev)
            res.histories += sum(1 for e in ev if e["op"] == "begin")
            res.transitions += max(g - 1, 0)
            res.states += d
            for e in ev[1:]:
                if len(res.samples) >= 2:
                    break
                if e["op"] not in ("begin", "free"):
                    x = {k: e[k] for k in ("op", "r", "a", "xs", "s", "res", "nw", "o") if e.get(k)}
                    if len(json.dumps(x)) < 1500:
                        res.samples.append(x)
            return
        # the specification could not be evaluated on some event: leave that
        # history out, but report it as an error
        depth = d if d else 1
        tail = "\n".join(x for x in out.splitlines() if "rror" in x or "line" in x)[-1500:]
        res.uneval.append("TLC exit %s at event %d: %s" % (rc, depth, tail))
        if rc == -1 or depth >= len(ev):
            return
        b = depth - 1
        while b > 0 and ev[b]["op"] != "begin":
            b -= 1
        e = depth
        while e < len(ev) and ev[e]["op"] != "begin":
            e += 1
        # what TLC has validated already is done
        res.events += b
        ev = ev[e:]


def run_driver(args, out, work, timeout, prop, res):
    """Runs the driver in its own process; a crash or a hang is a violation."""
    try:
        p = subprocess.run([PY, os.path.join(HERE, "driver.py")] + args, cwd=work, env=py_env(prop),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           text=True, errors="replace")
        rc, so, se = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        rc, so, se = "hang", "", ""
    if rc == 0:
        info = json.loads(so.strip().splitlines()[-1])
        for (k, v) in info.get("ops", {}).items():
            res.ops[k] = res.ops.get(k, 0) + v
        for b in info.get("bad", ()):
            res.errors.append("the generator failed: " + b)
        if info.get("skipped"):
            res.notes["skipped_calls"] = res.notes.get("skipped_calls", 0) + info["skipped"]
        return
    if rc == "hang" or (isinstance(rc, int) and rc < 0):
        ev = read_trace(out) if os.path.exists(out) else []
        res.verdicts.append(dict(clause="process-%s" % ("hangs" if rc == "hang" else "killed-by-signal-%d" % -rc),
                                 props=[prop], op="?", kind="?", l=len(ev), n=0,
                                 history=history_of(ev, len(ev)) if ev else [], args=args))
        return
    res.errors.append("driver exit %s: %s" % (rc, se[-1500:]))


def trace_job(prop, seed, nev, work, secs=60):
    res = Result()
    out = os.path.join(work, "t%d.ndjson" % seed)
    run_driver(["random", prop, str(seed), out, str(nev), str(secs)], out, work, secs * 2 + 60, prop, res)
    if os.path.exists(out):
        validate(out, out + ".universe", work, res)
        if prop in ABC:
            for v in res.verdicts:
                v["props"] = sorted(set(v["props"]) | {prop})
        for f in (out, out + ".ok", out + ".universe"):
            if os.path.exists(f):
                os.remove(f)
    return res


def replay_job(prop, name, hists, work):
    """Replays given histories (calls) on the real library and validates the trace."""
    res = Result()
    src = os.path.join(work, name + ".calls")
    out = os.path.join(work, name + ".ndjson")
    with open(src, "w") as f:
        for h in hists:
            f.write(json.dumps(h) + "\n")
    run_driver(["replay", src, out], out, work, 300, prop, res)
    if os.path.exists(out):
        validate(out, out + ".universe", work, res)
        if prop in ABC:
            for v in res.verdicts:
                v["props"] = sorted(set(v["props"]) | {prop})
        for x in (src, out, out + ".ok", out + ".universe"):
            if os.path.exists(x):
                os.remove(x)
    return res


# --------------------------------------------------------------------- report
def known():
    """The findings that are recorded rather than repaired (none are suppressed
    unless the file lists them as open)."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("open: "):
                res.append(json.loads(line[6:]))
    return res


def write_replay(prop, v, k):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (prop, k))
    with open(path, "w") as f:
        json.dump(dict(property=prop, **v), f, indent=1)
    return path


def report(prop, tier, seed, t0, res, level, extra, assumptions):
    old = os.path.join(VERIF, "evidence", "replays")
    for f in os.listdir(old) if os.path.isdir(old) else ():
        if f.startswith(prop + "-"):
            os.remove(os.path.join(old, f))
    mine = [v for v in res.verdicts if prop in v["props"]]
    others = [v for v in res.verdicts if prop not in v["props"]]
    shown = {}
    findings = known()
    n = 0
    for v in mine:
        kf = [f for f in findings if f["property"] == prop and all(
            v.get(k) == x for (k, x) in f["match"].items())]
        if kf:
            line = "KNOWN-FINDING: property=%s %s" % (prop, kf[0]["what"])
            if line not in shown:
                print(line)
                shown[line] = 1
            continue
        key = (v["clause"], v["op"], v["kind"])
        n += 1
        if key in shown or len(shown) >= 6:
            continue
        shown[key] = 1
        path = write_replay(prop, v, len(shown))
        e = v["history"][-1] if v.get("history") else {}
        print("# %s: %s of %s -> %s" % (v["clause"], v["op"], v["kind"], json.dumps(e.get("res", v.get("what", "")))[:300]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    cov = dict(
        states=res.states + res.mc_states, transitions=res.transitions + res.mc_transitions,
        traces_validated_against_impl=res.histories, samples=res.samples[:6] or ["none"],
        events_checked=res.events, model_states=res.mc_states,
        model_transitions=res.mc_transitions,
        operations={k: res.ops[k] for k in sorted(res.ops)},
        verdicts_for_other_properties=len(others),
        histories_not_evaluated=len(res.uneval), **res.notes)
    cov.update(extra)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=n)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    sys.stdout.flush()
    if n:
        return 1
    if len(res.uneval) > max(2, res.histories // 100):
        res.errors += res.uneval
    if res.errors:
        for x in res.errors[:5]:
            print("ERROR " + x, file=sys.stderr)
        return 3
    print("property %s held: %d histories, %d events, %d model states, %.1f s" % (
        prop, res.histories, res.events, res.mc_states, time.time() - t0))
    return 0


def jobs_for(prop, tier, seed, work):
    """The jobs of a check: functions that return a Result."""
    import plans
    return plans.jobs(prop, tier, seed, work)


def main():
    if sys.argv[1] == "replay":
        return rerun(sys.argv[2])
    (prop, tier) = (sys.argv[1], sys.argv[2])
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="pcv_%s_" % prop)
    total = Result()
    try:
        jobs = jobs_for(prop, tier, seed, work)
        limit = 600 if tier == "quick" else 10 ** 9
        with ThreadPoolExecutor(CORES) as ex:
            futs = [ex.submit(guard, j, t0, limit) for j in jobs]
            for f in futs:
                r = f.result()
                futs += [ex.submit(guard, j, t0, limit) for j in r.more]
                total.add(r)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    import plans
    return report(prop, tier, seed, t0, total, "model_checking",
                  dict(rule={"C12": plans.RULE12, "C22": plans.RULE22}.get(prop, plans.RULE)), plans.ASSUMPTIONS)


def guard(job, t0, limit):
    if time.time() - t0 > limit:
        r = Result()
        r.notes["jobs_left_out_for_time"] = 1
        return r
    try:
        return job()
    except Exception as e:
        import traceback
        r = Result()
        r.errors.append("job failed: " + traceback.format_exc()[-1500:])
        return r


def rerun(path):
    """Runs the history of a replay file on the current tree."""
    v = json.load(open(path))
    work = tempfile.mkdtemp(prefix="pcv_replay_")
    try:
        if v.get("schedule") is not None:
            import conc_jobs
            res = conc_jobs.rerun(v, work)
        elif v.get("threads") is not None:
            import thread_jobs
            res = thread_jobs.rerun(v, work)
        else:
            h = v["history"]
            hist = dict(lt=[[r["v"], r["f"], r["d"]] for r in h[0]["lt"]],
                        full=any(e.get("full") for e in h[1:]), calls=h[1:])
            res = replay_job(v["property"], "rerun", [hist], work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    bad = [x for x in res.verdicts if v["property"] in x["props"]]
    for x in bad:
        print(x["clause"], x["op"], x["kind"], json.dumps(x["history"][-1] if x.get("history") else "")[:500])
    for x in res.errors:
        print("ERROR", x)
    if bad:
        print("VIOLATION property=%s replay=%s" % (v["property"], path))
        return 1
    return 3 if res.errors else 0


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    sys.exit(main())
