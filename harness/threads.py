"""Runs calls of several threads on the real collections under chosen schedules (C22).

A scenario has a part that one thread runs at first, and a program for each of
two or three threads: calls on the persistent collections of the first part,
which all threads use, and on transient ones that a single thread uses.  The
threads run under the scheduler of conc.py: exactly one at a time, with a
decision at every line (or bytecode) of the library.  The harness itself is not
interrupted, so the events are recorded in the order in which the calls return.
In that order they must be a behaviour of the state machine (CollTrace), as if
the calls had been made one after another.

usage: threads.py pairs SEED OUT KINDS BOUND SECS OPCODES PART PARTS   two calls,
                                                all schedules with BOUND preemptions
       threads.py model SEED OUT FILE SECS OPCODES   orders printed by TLC
       threads.py random SEED OUT SECS OPCODES              longer programs
       threads.py one FILE OUT                       a scenario and its choices
"""
import json
import os
import random
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import conc
from conc import Sched

LABEL = 100000
# what needs the whole process, or other objects than those of the thread
NOT = {"xpickle", "lzcall", "lzready", "lzheld", "unlazy", "lznew", "next", "iter", "observe"}


def recorder(Session):
    class Recorder(Session):
        """A session that notes the calls it makes, with labels for the objects."""
        rec = None

        def quiet(self, on):
            """While it observes, a thread is not interrupted."""
            (_, w) = conc.current()
            if w is not None:
                w.quiet = on

        def start(self, labels=None):
            self.rec = []
            self.labels = dict(labels or {})
            self.labof = {i: a for (a, i) in self.labels.items()}

        def lab(self, i):
            return self.labof.get(i, i)

        def call(self, op, r=0, a=(), xs=(), kw=(), s="", var=0, arm=0, observe=None):
            c = dict(op=op, r=self.lab(r), a=list(a), xs=[dict(x, id=self.lab(x["id"])) for x in xs],
                     kw=[list(p) for p in kw], s=s, var=var)
            e = super().call(op, r=r, a=a, xs=xs, kw=kw, s=s, var=var, arm=arm, observe=observe)
            if self.rec is not None:
                new = [d["id"] for d in e["nw"]]
                i = new[-1] if new else 0
                if i:
                    c["as"] = LABEL + len(self.labels) + 1000 * self.part
                    self.labels[c["as"]] = i
                    self.labof[i] = c["as"]
                self.rec.append(c)
            return e
    return Recorder


def replay(sess, calls, labels, stop=lambda: None):
    """Runs calls; the ones on objects that were not made are left out."""
    def ref(i):
        return labels.get(i, -1) if i >= LABEL else i
    for c in calls:
        stop()
        r = ref(c["r"])
        xs = [dict(x, id=ref(x["id"])) for x in c["xs"]]
        need = [x["id"] for x in xs if x["id"]] + ([r] if r else [])
        if any(i not in sess.objs and i not in sess.iters for i in need):
            continue
        e = sess.call(c["op"], r=r, a=c["a"], xs=xs, kw=c["kw"], s=c["s"], var=c["var"])
        if c.get("as"):
            new = [d["id"] for d in e["nw"]]
            i = new[-1] if new else e["res"]["id"]
            if i:
                labels[c["as"]] = i


class Runner:
    def __init__(self, pc):
        from gen import Gen
        from session import Session, Halt, PERS, TRANS, KINDS, EMPTY
        from universe import Universe
        self.PERS = PERS
        self.EMPTY = EMPTY
        self.TRANS = TRANS
        self.KINDS = KINDS
        self.Halt = Halt
        self.Gen = Gen
        self.uni = Universe(pc)
        self.ev = []
        self.known = {}
        self.s = recorder(Session)(pc, self.uni, self.emit)

    def emit(self, e):
        e["n"] = len(self.ev)
        self.ev.append(e)

    # ------------------------------------------------------------ scenarios
    def prepare(self, r, kinds, sizes, profile=None):
        """The first part: some objects of these kinds and of the kinds they come from."""
        from profiles import PROFILES
        s = self.s
        s.threads = False
        p = dict(PROFILES[profile]) if profile else {}
        p.update(p_lazy=0.0, p_full=1.0, p_arm=0.0, sizes=sizes, p_big=0.01, p_chain=0.01, p_huge=0.0, bad=0.3)
        p.setdefault("con_kinds", {k: 1 for k in kinds})
        g = self.Gen(r, s, p)
        for k in self.KINDS:
            g.optab[k] = [(op, w) for (op, w) in g.optab[k] if op not in NOT]
        s.part = 0
        del self.ev[:]
        s.start()
        g.begin()
        return g

    def owners(self, r, n):
        """Which thread uses which transient object (each is used by one only)."""
        s = self.s
        return {a: r.randrange(n) for (a, i) in s.labels.items() if i in s.objs and s.kind[i] in self.TRANS}

    def as_thread(self, g, setup, own, t):
        """The state that thread t starts from, for the generator."""
        s = self.s
        s.rec = None
        s.part = 0
        del self.ev[:]
        s.threads = False
        s.begin((), True)
        labels = {}
        replay(s, setup, labels)
        s.free([i for (a, i) in labels.items() if i in s.objs and own.get(a, t) != t])
        s.start({a: i for (a, i) in labels.items() if i in s.objs})
        s.part = t + 1
        g.order = [i for i in s.objs]
        g.its = []
        g.hot = ()

    def pair(self, r, k, first):
        """Two calls on an object that is shared, or on two that share structure.

        The first is the operation `first` on an object of kind k."""
        s = self.s
        pk = {"tl": "pl", "tll": "ll", "ts": "ps", "td": "pd", "tld": "ld"}.get(k, k)
        g = self.prepare(r, [pk], [(1, 2), (2, 4), (3, 4), (4, 2), (6, 1)])

        def fresh():
            """An object of kind pk."""
            if r.random() < 0.12:
                return self.EMPTY[pk]
            while True:
                e = g.construct()
                i = e["res"]["id"]
                if i >= 10 and s.kind[i] == pk:
                    break
                if r.random() < 0.02:
                    return None
            if r.random() < 0.5:
                # (one that was not just made)
                for _ in range(20):
                    op = g.wch(g.optab[pk])
                    kw = g.args(i, pk, op)
                    if kw is not None and op not in ("misuse", "badindex"):
                        e = g.call(op, r=kw.pop("r", i), **kw)
                        j = e["res"]["id"]
                        if j >= 10 and s.kind[j] == pk and e["nw"]:
                            return j
            return i
        # both threads use one object, or each its own
        two = [fresh()]
        two.append(two[0] if r.random() < 0.65 else fresh())
        if None in two:
            return None
        if r.random() < 0.3:
            g.construct()
        tgt = [s.lab(i) for i in two]
        if k != pk:
            for t in (0, 1):
                if t == 0 or r.random() < 0.6:
                    e = g.call("transient", r=two[t])
                    if e["res"]["k"] != "obj":
                        return None
                    tgt[t] = s.lab(e["res"]["id"])
        own = {tgt[t]: t for t in (0, 1)} if k != pk else {}
        own = {a: t for (a, t) in own.items() if a in s.labels and s.kind[s.labels[a]] in self.TRANS}
        for a in self.owners(r, 2):
            own.setdefault(a, r.randrange(2))
        setup = s.rec
        progs = []
        for t in (0, 1):
            self.as_thread(g, setup, own, t)
            i = s.labels.get(tgt[t], tgt[t])
            if i not in s.kind:
                return None
            kk = s.kind[i]
            tab = g.optab[kk]
            for _ in range(30):
                if (t == 0 or r.random() < 0.6) and first in [o for (o, _) in tab]:
                    op = first
                else:
                    op = r.choice(tab)[0] if r.random() < 0.6 else g.wch(tab)
                kw = g.args(i, kk, op)
                if kw is not None:
                    break
            else:
                return None
            g.call(op, r=kw.pop("r", i), **kw)
            progs.append(s.rec)
        return dict(setup=setup, progs=progs)

    def menu(self, kinds):
        """Every operation of every kind."""
        self.s.threads = False
        self.s.begin((), True)
        g = self.Gen(random.Random(1), self.s, {})
        return [(k, op) for k in kinds for (op, _) in g.optab[k] if op not in NOT]

    def programs(self, r):
        """Longer programs of two or three threads."""
        s = self.s
        g = self.prepare(r, r.choice([self.KINDS, ["pl", "ll"], ["ps"], ["pd", "ld"]]),
                         [(0, 1), (1, 2), (2, 4), (3, 4), (5, 2), (9, 1)])
        for _ in range(r.choice([1, 2, 3])):
            g.construct()
        for _ in range(r.choice([0, 2, 4])):
            g.step()
        n = r.choice([2, 2, 2, 3])
        own = self.owners(r, n)
        setup = s.rec
        progs = []
        for t in range(n):
            self.as_thread(g, setup, own, t)
            try:
                for _ in range(r.choice([2, 3, 4, 6])):
                    g.step()
            except self.Halt:
                return None
            progs.append(s.rec)
        return dict(setup=setup, progs=progs)

    # ------------------------------------------------------------ execution
    def execute(self, sc, policy):
        """One run: (events, choices, whether it came to its end)."""
        s = self.s
        s.rec = None
        del self.ev[:]
        conc.SCHED[0] = None
        s.threads = False
        # (the first part is the same in every run: observed in the first one only)
        known = self.known.get(id(sc))
        s.begin((), known is None)
        shared = {}
        replay(s, sc["setup"], shared)
        if known is None:
            self.known = {id(sc): list(self.ev)}
        else:
            self.ev[:] = known
        s.threads = True
        s.full = False
        sched = Sched(len(sc["progs"]), policy, limit=20000)

        def body(prog):
            labels = dict(shared)

            def go(w):
                try:
                    replay(s, prog, labels, lambda: sched.point(w))
                except self.Halt:
                    pass
            return go
        ok = sched.run([body(p) for p in sc["progs"]])
        stuck = sched.stuck or not ok
        s.threads = False
        if not stuck:
            # what is left, read by one thread: contents, and hashes beside
            # those of fresh objects
            s.last.clear()
            try:
                s.call("observe", r=1, observe=True)
                ids = [i for i in s.objs if i >= 10 and s.kind[i] in self.PERS]
                for i in ids[-6:]:
                    e = s.call("hash", r=i)
                    if e["res"]["k"] == "hash" and s.kind[i] in ("pl", "ll", "ps"):
                        f = s.call("con", xs=[dict(id=0, k="L", c=list(s.last[i][0]))], s=s.kind[i])
                        if f["res"]["id"]:
                            s.call("hash", r=f["res"]["id"])
            except self.Halt:
                pass
        return list(self.ev), sched.choices, not stuck


class Out:
    def __init__(self, path, run):
        self.f = open(path + ".ndjson", "w")
        self.m = open(path + ".meta", "w")
        with open(path + ".universe", "w") as f:
            json.dump(run.uni.table(), f)
        self.seen = set()
        self.runs = 0
        self.line = 1
        self.stuck = 0

    def add(self, sc, ev, choices, ok):
        self.runs += 1
        key = json.dumps(ev)
        if ok and key in self.seen:
            return
        self.seen.add(key)
        self.m.write(json.dumps(dict(line=self.line, scenario=sc, choices=choices, opcodes=conc.OPC[0],
                                     stuck=not ok)) + "\n")
        for e in ev:
            self.f.write(json.dumps(e, separators=(",", ":")) + "\n")
        self.line += len(ev)
        if not ok:
            self.stuck += 1

    def close(self, **kw):
        self.f.close()
        self.m.close()
        print(json.dumps(dict(runs=self.runs, distinct=len(self.seen), events=self.line - 1, **kw)))
        sys.stdout.flush()
        os._exit(0)


def dfs(r, run, sc, bound, maxruns, most, deadline, out):
    """All schedules of sc with at most `bound` preemptions, depth first; of more
    than `most` places for the next preemption, that many."""
    trail = []
    whole = True

    def pol(s, me, en):
        ids = [w.i for w in en]
        k = len(s.choices)
        c = pre[k] if k < len(pre) and pre[k] in ids else (me.i if me in en else ids[0])
        trail.append((me.i if me in en else 0, ids, c))
        return [w for w in en if w.i == c][0]
    stack = [((), 0)]
    n = 0
    while stack and n < maxruns and time.time() < deadline and not out.stuck:
        (pre, cost) = stack.pop()
        del trail[:]
        (ev, ch, ok) = run.execute(sc, pol)
        out.add(sc, ev, ch, ok)
        n += 1
        new = []
        for k in range(len(trail) - 1, len(pre) - 1, -1):
            (me, ids, c) = trail[k]
            for a in ids:
                if a != c:
                    cst = cost + (1 if me in ids else 0)
                    if cst <= bound:
                        new.append((k, a, cst))
        if len(new) > most:
            whole = False
            # (the first decision of all is always changed)
            new = [x for x in new if x[0] == 0] + r.sample(new, most)
        stack += [(tuple(t[2] for t in trail[:k]) + (a,), cst) for (k, a, cst) in new]
    return whole and not stack


def lengths(run, sc):
    """How many decisions there are within the program of each thread."""
    cnt = {}

    def pol(s, me, en):
        w = me if me in en else en[0]
        cnt[w.i] = cnt.get(w.i, 0) + 1
        return w
    # (with a single thread nothing is decided: count the stops)
    res = []
    for t in range(len(sc["progs"])):
        two = dict(sc, progs=[sc["progs"][t], []])
        cnt.clear()

        def first(s, me, en):
            w = [x for x in en if x.i == 1]
            w = w[0] if w and s.workers[1].done is False else en[0]
            cnt[w.i] = cnt.get(w.i, 0) + 1
            return w
        run.execute(two, first)
        res.append(max(1, cnt.get(1, 1)))
    return res


def forced(order, cuts):
    """Runs the segments of the threads in this order; cuts: where each segment ends."""
    pos = {}
    at = [0]
    seg = {}

    def pol(s, me, en):
        while at[0] < len(order):
            t = order[at[0]]
            w = [x for x in en if x.i == t]
            k = seg.get(t, 0)
            end = cuts[t - 1][k] if k < len(cuts[t - 1]) else 10 ** 9
            if not w or pos.get(t, 0) >= end:
                at[0] += 1
                seg[t] = k + 1
                continue
            pos[t] = pos.get(t, 0) + 1
            return w[0]
        return me if me in en else en[0]
    return pol


def main():
    mode = sys.argv[1]
    a = sys.argv[2:]
    pc = conc.load()
    t0 = time.time()
    run = Runner(pc)
    if mode == "one":
        d = json.load(open(a[0]))
        conc.OPC[0] = bool(d.get("opcodes"))
        out = Out(a[1], run)
        (ev, ch, ok) = run.execute(d["scenario"], conc.follow(d["choices"], conc.stay))
        out.add(d["scenario"], ev, ch, ok)
        out.close()
    (seed, path) = (int(a[0]), a[1])
    r = random.Random("%s/%d" % (mode, seed))
    out = Out(path, run)
    n = full = 0
    bad = []

    def scenario(f, *x):
        try:
            return f(r, *x)
        except run.Halt:
            return None
        except Exception:
            import traceback
            bad.append(traceback.format_exc()[-800:])
            if len(bad) > 20:
                out.close(scenarios=n, bad=bad[:2])
            return None
    if mode == "pairs":
        (kinds, bound, secs) = (a[2].split(","), int(a[3]), float(a[4]))
        conc.OPC[0] = a[5] == "1"
        (part, parts) = (int(a[6]), int(a[7]))
        menu = run.menu(kinds)
        menu = [m for (j, m) in enumerate(menu) if j % parts == part]
        todo = []
        rounds = -1
        while time.time() - t0 < secs and not out.stuck:
            if not todo:
                todo = r.sample(menu, len(menu))
                rounds += 1
            sc = scenario(run.pair, *todo.pop())
            if sc is None:
                continue
            n += 1
            full += dfs(r, run, sc, bound, 200 if bound == 1 else 3000, 40 if bound == 1 else 60,
                        t0 + secs + 5, out)
        out.close(scenarios=n, complete=full, rounds=rounds, bad=bad[:2])
    if mode == "model":
        menu = run.menu(run.KINDS)
        orders = [json.loads(x) for x in open(a[2])]
        secs = float(a[3])
        conc.OPC[0] = a[4] == "1"
        while time.time() - t0 < secs and not out.stuck:
            sc = scenario(run.pair, *r.choice(menu)) if r.random() < 0.6 else scenario(run.programs)
            if sc is None:
                continue
            n += 1
            ln = lengths(run, sc)
            th = len(ln)
            some = [o for o in orders if max(o) == th]
            for o in r.sample(some, min(len(some), 30)):
                cuts = [sorted(r.randint(1, m) for _ in range(o.count(t + 1) - 1)) for (t, m) in enumerate(ln)]
                (ev, ch, ok) = run.execute(sc, forced(o, cuts))
                out.add(sc, ev, ch, ok)
                if not ok:
                    break
        out.close(scenarios=n, bad=bad[:2])
    if mode == "random":
        secs = float(a[2])
        conc.OPC[0] = a[3] == "1"
        while time.time() - t0 < secs and not out.stuck:
            sc = scenario(run.programs)
            if sc is None:
                continue
            n += 1
            for _ in range(12):
                if r.random() < 0.6:
                    pol = conc.rnd(r, r.choice([0.01, 0.03, 0.1, 0.3, 0.6]))
                else:
                    pol = conc.pct(r, len(sc["progs"]), r.choice([1, 2, 3, 4]),
                                   r.choice([50, 200, 600]) * (6 if conc.OPC[0] else 1))
                (ev, ch, ok) = run.execute(sc, pol)
                out.add(sc, ev, ch, ok)
                if not ok:
                    break
        out.close(scenarios=n, bad=bad[:2])


if __name__ == "__main__":
    main()
