"""Records histories of the real library.

usage: driver.py random PROFILE SEED OUT N_EVENTS MAX_SECONDS
       driver.py replay FILE OUT
Writes OUT (one JSON event per line) and OUT.universe (the value table), and
prints one line of JSON with what was generated.  FILE has one history per
line: {"lt": [[v, f, deps], ..], "full": bool, "calls": [{op, r, a, xs, kw, s,
var, arm}, ..]}.
"""
import json
import os
import random
import resource
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")
sys.path.insert(0, __file__.rsplit("/", 1)[0])
resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
sys.setrecursionlimit(3000)


LABEL = 100000


def replay(sess, hist, halt):
    """Runs one given history.  Calls on objects that do not exist are skipped.

    Numbers from LABEL on are labels: they stand for the object that the call
    with that label ("as") made.  In a scene, the objects that were not given a
    label are freed soon, and so is an object whose label is given again."""
    sess.begin(hist.get("lt", ()), hist.get("full", True))
    skipped = 0
    labels = {}
    scene = hist.get("scene")
    loose = []

    def ref(i):
        return labels.get(i, -1) if i >= LABEL else i
    try:
        for c in hist["calls"]:
            if c["op"] == "free":
                sess.free([ref(i) for i in c["a"]])
                continue
            r = ref(c.get("r", 0))
            xs = [dict(x, id=ref(x["id"])) for x in c.get("xs", ())]
            need = [x["id"] for x in xs if x["id"]]
            if r:
                need.append(r)
            if any(i not in sess.objs and i not in sess.iters for i in need):
                skipped += 1
                continue
            e = sess.call(c["op"], r=r, a=c.get("a", ()), xs=xs,
                          kw=c.get("kw", ()), s=c.get("s", ""), var=c.get("var", 0),
                          arm=c.get("arm", 0), observe=bool(c["full"]) if "full" in c else None)
            if c["op"] == "next" and e["res"]["k"] == "exc":
                sess.free([r])      # a failed iterator may be finished or not
            lab = c.get("as")
            if lab:
                old = labels.pop(lab, None)
                if c["op"] == "iter":
                    if e["nw"]:
                        labels[lab] = e["nw"][-1]["id"]
                elif e["res"]["id"]:
                    labels[lab] = e["res"]["id"]
                if old is not None and old not in labels.values():
                    loose.append(old)
            if scene:
                keep = set(labels.values())
                loose += [d["id"] for d in e["nw"] if d["id"] not in keep]
                if len(loose) >= 5:
                    sess.free([i for i in loose if i not in keep])
                    loose = []
    except halt:
        pass
    return skipped


def main():
    mode = sys.argv[1]
    out = sys.argv[4] if mode == "random" else sys.argv[3]
    import pcollections as pc
    from universe import Universe
    from session import Session, Halt
    uni = Universe(pc)
    if os.environ.get("PC_ABC"):
        import minimal
        pc = minimal.make(pc)
    with open(out + ".universe", "w") as f:
        json.dump(uni.table(), f)
    count = [0]
    t0 = time.time()
    info = {}
    bad = []
    with open(out, "w") as f:
        def emit(e):
            f.write(json.dumps(e, separators=(",", ":")) + "\n")
            count[0] += 1
        s = Session(pc, uni, emit)
        h = 0
        if mode == "random":
            (prop, seed, nev, secs) = (sys.argv[2], int(sys.argv[3]), int(sys.argv[5]),
                                       float(sys.argv[6]))
            from gen import Gen
            from profiles import PROFILES
            g = Gen(random.Random("%s/%d" % (prop, seed)), s, PROFILES[prop])
            while count[0] < nev and time.time() - t0 < secs and s.hangs < 2:
                try:
                    g.history()
                except Exception:
                    # (the library, broken, misled the generator)
                    bad.append(traceback.format_exc()[-1200:])
                    if len(bad) > 20:
                        break
                f.flush()
                h += 1
            info["ops"] = g.counts
        else:
            skipped = 0
            with open(sys.argv[2]) as src:
                for line in src:
                    if s.hangs >= 2:
                        break
                    skipped += replay(s, json.loads(line), Halt)
                    h += 1
            info["skipped"] = skipped
    print(json.dumps(dict(info, bad=bad[:2], events=count[0], histories=h,
                          secs=round(time.time() - t0, 2))))


if __name__ == "__main__":
    main()
