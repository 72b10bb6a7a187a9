"""Shows that the machinery can fail (run by hand; DESIGN.md has the numbers).

usage: selfcheck.py designs     broken designs, which TLC must reject in the models
       selfcheck.py corrupt N   one wrong entry in each of N recorded histories, which
                                TLC must find at that very event
"""
import collections
import json
import os
import random
import re
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check as C
import scenes as S
import conc_jobs
import thread_jobs

DESIGNS = [
    ("ListRep", "ListRep.cfg", dict(), {"BugRead": "TRUE"}, {"BugOrig": "TRUE"}),
    ("ChainRep", "ChainRep.cfg", dict(), {"BugCut": "TRUE"}, {"BugOrig": "TRUE"}),
    ("MCColl", "MCColl.cfg", dict(MaxDepth=3, OneIn=1000000), {"Bug": '"snapshot"'}, {"Bug": '"copy"'}),
    ("MCOne", "MCOne.cfg", dict(OneIn=1000000), {"Bug": '"length"'}, {"Fam": '"str"', "Bug": '"fit"'}),
]


def designs():
    work = tempfile.mkdtemp(prefix="pcself_")
    bad = 0
    try:
        for (mod, cfg, base, *bugs) in DESIGNS:
            for b in [{}] + bugs:
                try:
                    (_, d, g) = S.run_model(mod, cfg, dict(base, **b), work)
                    r = "accepted (%d states)" % d
                except C.Machinery as e:
                    m = re.search("TLC exit (-?[0-9]+)", str(e))
                    r = "rejected: " + {"12": "an invariant", "13": "a step property"}.get(m.group(1), str(e)[-200:])
                ok = r.startswith("accepted") == (b == {})
                bad += not ok
                print("%-9s %-40s %s%s" % (mod, b or "as it is", r, "" if ok else "   <-- WRONG"))
        for d in ["lib", "nolock", "norecheck", "failready", "readyfirst", "keeplock", "staleread",
                  "onelock", "stripes"]:
            (res, out) = conc_jobs.mc("MCLazy.cfg", work, expect_bad=d != "lib",
                                      replace=None if d == "lib" else d)
            r = "accepted (%d states)" % C.states_of(out)[1] if "violated" not in out and "Deadlock reached" not in out else "rejected: " + " ".join(
                x for x in out.splitlines() if "violated" in x or "eadlock" in x)[:110]
            ok = not res.errors
            bad += not ok
            print("%-9s %-40s %s%s" % ("MCLazy", d, r, "" if ok else "   <-- WRONG"))
        for d in ["lib", "scratch", "early", "cached", "inplace"]:
            (res, out) = thread_jobs.mc("Threads.cfg", work, d)
            r = "accepted (%d states)" % C.states_of(out)[1] if "violated" not in out else "rejected: " + " ".join(
                x for x in out.splitlines() if "violated" in x)[:110]
            bad += bool(res.errors)
            print("%-9s %-40s %s%s" % ("Threads", d, r, "   <-- WRONG" if res.errors else ""))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 1 if bad else 0


# ------------------------------------------------------------------ corruption
def c_result(e, rng):
    """Another result."""
    r = e["res"]
    if r["k"] == "bool":
        r["v"] = [1 - r["v"][0]]
    elif r["k"] == "int":
        r["v"] = [r["v"][0] + rng.choice([-1, 1])]
    elif r["k"] in ("tok",):
        r["v"] = [1599]
    elif r["k"] == "toks" and r["v"]:
        del r["v"][rng.randrange(len(r["v"]))]
    elif r["k"] == "str" and len(r["s"]) > 4:
        r["s"] = r["s"][:-3] + r["s"][-2:]
    elif r["k"] == "none":
        r.update(k="tok", v=[1])
    else:
        return False
    return True


def c_exception(e, rng):
    """Another exception, or one where there was none."""
    r = e["res"]
    if r["k"] == "exc" and r["s"] in ("IndexError", "KeyError", "TypeError", "ValueError"):
        r["s"] = "AttributeError"
    elif r["k"] in ("tok", "int", "bool", "none"):
        e["res"] = dict(k="exc", v=[], id=0, s="KeyError")
        e["nw"] = []
    else:
        return False
    return True


def obs(e, f):
    c = [o for o in e["o"] if f(o) and o["p"] and o["p"][0]]
    return c


def c_item(e, rng):
    """An item of the receiver or of a new object is another value."""
    c = obs(e, lambda o: True)
    if not c:
        return False
    o = rng.choice(c)
    p = [list(x) for x in o["p"]]
    i = rng.randrange(len(p[0]))
    p[0][i] = [p[0][i][0], 1598] if isinstance(p[0][i], list) else 1598
    o["p"] = p
    return True


def c_lost(e, rng):
    """An item of the receiver or of a new object is missing."""
    c = obs(e, lambda o: True)
    if not c:
        return False
    o = rng.choice(c)
    p = [list(x) for x in o["p"]]
    del p[0][rng.randrange(len(p[0]))]
    o["p"] = p
    return True


def c_order(e, rng, kinds):
    """Two different items have changed places."""
    c = [o for o in obs(e, lambda o: kinds.get(o["id"]) not in ("ps", "ts")) if len(o["p"][0]) > 1
         and o["p"][0][0] != o["p"][0][-1]]
    if not c or e["op"] in ("sort",):
        return False
    o = rng.choice(c)
    p = [list(x) for x in o["p"]]
    (p[0][0], p[0][-1]) = (p[0][-1], p[0][0])
    o["p"] = p
    return True


def c_other(e, rng, kinds, last):
    """An object that the call has nothing to do with has changed."""
    c = [i for i in last if i != e["r"] and all(o["id"] != i for o in e["o"]) and i >= 10]
    if not c or not e.get("full"):
        return False
    i = rng.choice(c)
    v = 1598
    e["o"].append(dict(id=i, p=[last[i] + [[v, v] if kinds[i] in ("pd", "td", "ld", "tld") else v]]))
    return True


def c_identity(e, rng, kinds, last):
    """The result is another object than it was."""
    if e["res"]["k"] != "obj" or e["nw"]:
        return False
    k = kinds.get(e["res"]["id"])
    c = [i for i in last if kinds[i] == k and i != e["res"]["id"] and last[i] != last.get(e["res"]["id"])]
    if not c:
        return False
    e["res"]["id"] = rng.choice(c)
    return True


def c_kind(e, rng):
    """The result has another type."""
    if not e["nw"] or e["nw"][0]["k"] == "it":
        return False
    k = e["nw"][0]["k"]
    e["nw"][0]["k"] = {"pl": "ll", "ll": "pl", "tl": "tll", "tll": "tl", "ps": "ts", "ts": "ps",
                       "pd": "ld", "ld": "pd", "td": "tld", "tld": "td"}[k]
    return True


def c_lazy(e, rng, lt):
    """A lazy value was called that need not be."""
    if not lt or e["op"] not in ("append", "set", "drop", "len", "transient", "persistent", "copy"):
        return False
    c = [j for j in range(1, len(lt) + 1) if all(x[0] != j for x in e["lzo"])
         and not lt[j - 1].get("done") and not lt[j - 1]["d"] and lt[j - 1]["f"] == 0]
    if not c:
        return False
    e["lzo"].append([rng.choice(c), 1, 1])
    return True


KINDS = ["result", "exception", "item", "lost", "order", "other", "identity", "kind", "lazy"]


def corrupt(n):
    work = tempfile.mkdtemp(prefix="pcself_")
    rng = random.Random(7)
    made = collections.Counter()
    found = collections.Counter()
    missed = collections.Counter()
    try:
        for (j, prop) in enumerate(["C01", "C02", "C05", "C07", "C08", "C13", "C14", "C16", "C19", "C20"]):
            out = os.path.join(work, "t.ndjson")
            res = C.Result()
            C.run_driver(["random", prop, str(500 + j), out, str(n * 40 // 10), "60"], out, work, 200, prop, res)
            ev = C.read_trace(out)
            starts = [i for i, e in enumerate(ev) if e["op"] == "begin"] + [len(ev)]
            marks = {}
            for (b, z) in zip(starts, starts[1:]):
                want = rng.choice(KINDS)
                pos = list(range(b + 1, z))
                rng.shuffle(pos)
                pos = pos[:12]
                kinds = {1: "pl", 2: "ll", 3: "ps", 4: "pd", 5: "ld"}
                last = {i: [] for i in kinds}
                lt = [dict(x) for x in ev[b]["lt"]]
                done = False
                for i in range(b + 1, z):
                    e = ev[i]
                    if e["op"] == "free":
                        for x in e["a"]:
                            last.pop(x, None)
                        continue
                    if i in pos and not done:
                        f = globals()["c_" + want]
                        args = dict(order=(kinds,), other=(kinds, last), identity=(kinds, last),
                                    lazy=(lt,)).get(want, ())
                        for d in e["nw"]:
                            kinds[d["id"]] = d["k"]
                        if f(e, rng, *args):
                            marks[i + 1] = (want, e["op"])
                            made[want] += 1
                            done = True
                            break
                    for d in e["nw"]:
                        kinds[d["id"]] = d["k"]
                        if d["k"] != "it":
                            last[d["id"]] = []
                    for o in e["o"]:
                        last[o["id"]] = o["p"][0]
                    for x in e["lzo"]:
                        lt[x[0] - 1]["done"] = 1
                if done:        # the rest of the history is left out
                    for k in range(i + 1, z):
                        ev[k] = None
            keep = [(i + 1, e) for i, e in enumerate(ev) if e is not None]
            with open(out, "w") as f:
                for (_, e) in keep:
                    f.write(json.dumps(e) + "\n")
            res = C.Result()
            C.validate(out, out + ".universe", work, res)
            lines = {keep[v["l"] - 1][0] for v in res.verdicts}
            for (l, (want, op)) in marks.items():
                if l in lines:
                    found[want] += 1
                else:
                    missed[(want, op)] += 1
            if lines - set(marks):
                print("verdicts elsewhere:", len(lines - set(marks)))
            if res.uneval:
                print("not evaluated:", res.uneval[:2])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for k in KINDS:
        print("%-10s %5d made, %5d found" % (k, made[k], found[k]))
    print("missed:", dict(missed))
    return 0


if __name__ == "__main__":
    sys.exit(designs() if sys.argv[1] == "designs" else corrupt(int(sys.argv[2])))
