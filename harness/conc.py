"""Runs the real lazy values under chosen thread schedules (C12).

The locks of the threading module are replaced, before the library is imported,
by cooperative ones, and every thread runs under a trace function that stops at
each line (or bytecode) of the library: exactly one thread runs at a time, and a
policy decides at every stop which one goes on.  So a run is a function of its
choices, and can be repeated.

usage: conc.py dfs SEED SCENARIOS OUT BOUND MAXRUNS SECS OPCODES
       conc.py random SEED SCENARIOS OUT RUNS SECS OPCODES
       conc.py hist SEED FILE OUT SECS OPCODES   (histories printed by TLC)
       conc.py one FILE OUT                      (a scenario and its choices)
OUT.ndjson gets each distinct observed execution once, OUT.meta the scenario and
the choices behind each.
"""
import _thread
import json
import os
import random
import sys
import time

RealLock = _thread.allocate_lock
start_thread = _thread.start_new_thread
get_ident = _thread.get_ident


class Abort(BaseException):
    """Ends the threads of a run that is stuck."""


class BaseBoom(KeyboardInterrupt):
    """The failure that is no Exception."""


class Boom(Exception):
    pass


SCHED = [None]


def current():
    s = SCHED[0]
    return (s, s.byident.get(get_ident())) if s is not None else (None, None)


class CoopLock:
    """A cooperative lock, reentrant or not."""

    def __init__(self, reentrant):
        self.re = reentrant
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        (s, me) = current()
        who = me if me is not None else "main"
        if s is not None and me is not None:
            s.point(me)
        while self.owner is not None and not (self.re and self.owner is who):
            if not blocking or s is None or me is None:
                return False
            if not s.block(me, self, timeout is not None and timeout >= 0):
                return False
        self.owner = who
        self.count += 1
        return True

    def release(self):
        (s, me) = current()
        if self.owner is None or (self.re and self.owner is not (me if me is not None else "main")):
            if s is not None and s.dead:
                return
            raise RuntimeError("release of a lock that is not held")
        self.count -= 1
        if self.count == 0:
            self.owner = None
        if s is not None and me is not None:
            s.point(me)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    # what threading.Condition uses
    def _is_owned(self):
        (s, me) = current()
        return self.owner is (me if me is not None else "main")

    def _release_save(self):
        n = self.count
        self.count = 0
        self.owner = None
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self.count = n

    def _at_fork_reinit(self):
        self.owner = None
        self.count = 0


def patch():
    import threading
    lock = lambda *a: CoopLock(False)
    rlock = lambda *a: CoopLock(True)
    threading.Lock = threading._allocate_lock = lock
    threading.RLock = threading._CRLock = threading._PyRLock = rlock
    _thread.allocate_lock = _thread.allocate = lock
    _thread.RLock = rlock
    threading.get_ident = get_ident


class Worker:
    def __init__(self, i):
        self.i = i
        self.sem = RealLock()
        self.sem.acquire()
        self.blocked = None
        self.timed = False
        self.done = False
        self.quiet = False

    def enabled(self):
        if self.done:
            return False
        b = self.blocked
        if isinstance(b, Worker):
            return b.done       # waits for a thread that it started
        # (a wait with a timeout can end at any moment)
        return b is None or self.timed or b.owner is None or (b.re and b.owner is self)


class Sched:
    def __init__(self, n, policy, limit=6000):
        self.workers = [Worker(i + 1) for i in range(n)]
        self.n = n
        self.byident = {}
        self.policy = policy
        self.choices = []
        self.events = []
        self.main = RealLock()
        self.main.acquire()
        self.dead = False
        self.stuck = False
        self.steps = 0
        self.limit = limit
        self.rr = 0

    # every decision is made here, by the thread that is running
    def pick(self, me):
        en = [w for w in self.workers if w.enabled()]
        if not en:
            return None
        self.steps += 1
        if self.steps > self.limit:
            # a thread may be waiting in a loop: be fair from here on
            if self.steps > 4 * self.limit:
                return None
            self.rr += 1
            return en[self.rr % len(en)]
        c = self.policy(self, me, en) if len(en) > 1 else en[0]
        if len(en) > 1:
            self.choices.append(c.i)
        return c

    def switch(self, me, to):
        if to is me:
            return
        to.sem.release()
        me.sem.acquire()
        if self.dead:
            raise Abort()

    def point(self, me):
        if self.dead:
            return
        to = self.pick(me)
        if to is None:
            self.kill(me)
        self.switch(me, to)

    def block(self, me, lock, timed):
        """Waits until the lock may be free; False when the wait timed out."""
        if self.dead:
            raise Abort()
        me.blocked = lock
        me.timed = timed
        to = self.pick(me)
        if to is None:
            self.kill(me)
        self.switch(me, to)
        me.timed = False
        ok = me.enabled()
        me.blocked = None
        return ok or not timed

    def helper(self, me, body):
        """Runs body in another thread and waits for it."""
        if self.dead:
            raise Abort()
        w = Worker(me.i + self.n)
        w.up = me
        self.workers.append(w)
        self.begin(w, body)
        me.blocked = w
        to = self.pick(me)
        self.switch(me, to)
        me.blocked = None

    def kill(self, me):
        self.stuck = True
        self.dead = True
        raise Abort()

    def finish(self, me):
        me.done = True
        if not self.dead:
            if all(w.done for w in self.workers):
                self.main.release()
                return
            to = self.pick(me)
            if to is not None:
                to.sem.release()
                return
            self.stuck = True
            self.dead = True
        # the run is over: end the others, one by one
        for w in self.workers:
            if not w.done:
                w.sem.release()
                return
        self.main.release()

    def begin(self, w, body):
        """Starts the thread of w; it waits to be picked."""
        ready = RealLock()
        ready.acquire()

        def go():
            self.byident[get_ident()] = w
            ready.release()
            w.sem.acquire()
            try:
                if not self.dead:
                    sys.settrace(tracer)
                    body(w)
            except Abort:
                pass
            finally:
                sys.settrace(None)
                self.finish(w)
        start_thread(go, ())
        ready.acquire()

    def run(self, bodies, wait=20.0):
        SCHED[0] = self
        for (w, body) in zip(list(self.workers), bodies):
            self.begin(w, body)
        first = self.pick(None)
        first.sem.release()
        ok = self.main.acquire(True, wait)
        SCHED[0] = None
        return ok


LIB = [None]
OPC = [False]


def tracer(frame, event, arg):
    if not frame.f_code.co_filename.startswith(LIB[0]):
        return None
    if OPC[0]:
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
    return local


def local(frame, event, arg):
    if event in ("line", "opcode"):
        (s, me) = current()
        if me is not None and not s.dead and not me.quiet:
            s.point(me)
    return local


# ------------------------------------------------------------------ scenarios
class V:
    """A value made by a run of a lazy function."""
    __slots__ = ("j", "r")

    def __init__(self, j, r):
        self.j = j
        self.r = r


def reqs_of(j, r):
    """The requests that stand for a request for lazy value j."""
    return r.choice(["call"] * 6 + ["unlazy", "ll", "ld", "ldget", "tll", "tld", "tldget"])


class World:
    """The objects of one run of a scenario."""

    def __init__(self, pc, sc, sched):
        self.pc = pc
        self.sc = sc
        self.s = sched
        n = len(sc["dep"])
        self.n = n
        self.calls = [0] * n
        # (a lazy value may be any of a number of them made one after the other)
        slots = sc.get("slots") or list(range(n))
        role = {k: j + 1 for (j, k) in enumerate(slots)}
        self.pool = [pc.lazy(self.fn(role.get(k, 0))) for k in range(max(slots) + 1)]
        self.lz = [self.pool[k] for k in slots]
        self.ll = pc.llist(self.lz)
        self.ld = pc.ldict([(j + 1, z) for (j, z) in enumerate(self.lz)])
        self.tll = self.ll.transient()
        self.tld = self.ld.transient()

    def log(self, w, ev, js, vs=(), x=""):
        self.s.events.append(dict(t=w.i, ev=ev, js=list(js), vs=list(vs), x=x))

    def fn(self, j):
        def f():
            (s, w) = current()
            self.calls[j - 1] += 1
            r = self.calls[j - 1]
            self.log(w, "fn", [j], [r])
            s.point(w)
            x = None
            try:
                for d in self.sc["dep"][j - 1]:
                    if self.sc["hand"][j - 1]:
                        self.handed(w, d)
                    else:
                        self.request(w, "call", d)
                    s.point(w)
            except Abort:
                raise
            except Exception as e:
                x = ("E", e)
            except BaseException as e:
                x = ("B", e)
            if x is None and r <= self.sc["fail"][j - 1]:
                x = (self.sc["fk"][j - 1], None)
                x = (x[0], Boom("%d.%d" % (j, r)) if x[0] == "E" else BaseBoom())
            if x is not None:
                self.log(w, "fnfail", [j], (), x[0])
                raise x[1]
            self.log(w, "fnok", [j], [r])
            s.point(w)
            return V(j, r)
        return f

    def handed(self, w, j):
        """A thread is started that requests j, and waited for."""
        got = []

        def body(w2):
            try:
                self.request(w2, "call", j)
            except Abort:
                raise
            except BaseException as e:
                got.append(e)
        self.s.helper(w, body)
        if got:
            raise got[0]

    def request(self, w, how, j):
        """One request; raises what the library raises."""
        n = self.n
        allj = list(range(1, n + 1))
        (js, vals) = ([j], True)
        if how in ("lllist", "ldvals", "lditems", "tllist", "tldvals"):
            js = allj
        elif how in ("llready", "ldready"):
            (js, vals) = (allj, False)
        self.log(w, "req", js)
        z = self.lz[j - 1]
        try:
            if how == "call":
                v = [z()]
            elif how == "unlazy":
                v = [self.pc.unlazy(z)]
            elif how == "ll":
                v = [self.ll[j - 1]]
            elif how == "ld":
                v = [self.ld[j]]
            elif how == "ldget":
                v = [self.ld.get(j)]
            elif how == "tll":
                v = [self.tll[j - 1]]
            elif how == "tld":
                v = [self.tld[j]]
            elif how == "tldget":
                v = [self.tld.get(j)]
            elif how == "lllist":
                v = list(self.ll)
            elif how == "tllist":
                v = list(self.tll)
            elif how == "ldvals":
                v = list(self.ld.values())
            elif how == "tldvals":
                v = list(self.tld.values())
            elif how == "lditems":
                v = [b for (a, b) in self.ld.items()]
            elif how == "llready":
                self.ll.ready_all()
            elif how == "ldready":
                self.ld.ready_all()
            else:
                raise AssertionError(how)
        except Abort:
            raise
        except BaseException as e:
            if any(c.__name__ == "LazyError" for c in type(e).__mro__):
                x = "LazyError"
            elif isinstance(e, BaseBoom):
                x = "Base"
            else:
                x = "Other:" + type(e).__name__
            self.log(w, "err", js, (), x)
            raise
        vs = []
        if vals:
            vs = [o.r if isinstance(o, V) and o.j == k else 0 for (o, k) in zip(v, js)]
            vs += [0] * (len(js) - len(vs))
            if len(v) > len(js):
                vs[0] = 0
        self.log(w, "ret", js, vs)

    def probe(self, w, how, j):
        z = self.lz[j - 1]
        self.log(w, "ask", [j])
        if how == "ll":
            b = self.ll.is_ready(j - 1)
        elif how == "ld":
            b = self.ld.is_ready(j)
        else:
            b = z.is_ready()
        self.log(w, "rdy", [j], [1 if b else 0])

    def body(self, prog):
        def go(w):
            for (how, j) in prog:
                self.s.point(w)
                try:
                    if j < 0:
                        self.probe(w, how, -j)
                    else:
                        self.request(w, how, j)
                except Abort:
                    raise
                except BaseException:
                    pass
        return go


def execute(pc, sc, policy):
    """One run: (events, choices, what is wrong with the run itself)."""
    s = Sched(len(sc["prog"]), policy)
    SCHED[0] = None
    w = World(pc, sc, s)
    ok = s.run([w.body(p) for p in sc["prog"]])
    ev = s.events
    if not ok or s.stuck:
        ev = ev + [dict(t=1, ev="stuck", js=[1], vs=[], x="" if ok else "hang")]
    # what is left: every value once more, by one thread at the end
    return ev, s.choices, ok


# ------------------------------------------------------------------- policies
def stay(s, me, en):
    return me if me in en else en[0]


def follow(choices, rest):
    it = [0]

    def pol(s, me, en):
        k = it[0]
        it[0] += 1
        if k < len(choices):
            for w in en:
                if w.i == choices[k]:
                    return w
        return rest(s, me, en)
    return pol


def rnd(r, p):
    def pol(s, me, en):
        if me in en and r.random() > p:
            return me
        return r.choice(en)
    return pol


def pct(r, n, d, length):
    """Random priorities with d change points (PCT)."""
    pr = list(range(n))
    r.shuffle(pr)
    pr = {i + 1: x + d for (i, x) in enumerate(pr)}
    change = {r.randrange(1, length): k for k in range(d)}
    cnt = [0]

    def pol(s, me, en):
        cnt[0] += 1
        # (a thread that another one started has the priority of that one)
        w = max(en, key=lambda w: pr[(w.i - 1) % n + 1])
        if cnt[0] in change:
            pr[(w.i - 1) % n + 1] = change[cnt[0]]
            w = max(en, key=lambda w: pr[(w.i - 1) % n + 1])
        return w
    return pol


def byhist(h):
    """Follows the order of visible events <<thread, event, lazy>>."""
    def pol(s, me, en):
        k = len(s.events)
        if k < len(h):
            for w in en:
                if w.i == h[k][0]:
                    return w
        return stay(s, me, en)
    return pol


# -------------------------------------------------------------------- writing
class Out:
    def __init__(self, path):
        self.f = open(path + ".ndjson", "w")
        self.m = open(path + ".meta", "w")
        self.seen = set()
        self.runs = 0
        self.line = 1
        self.hung = False

    def add(self, sc, ev, choices, ok=True):
        self.runs += 1
        key = json.dumps([len(sc["dep"]), [[e["t"], e["ev"], e["js"], e["vs"], e["x"]] for e in ev]])
        if key in self.seen:
            return
        self.seen.add(key)
        self.m.write(json.dumps(dict(line=self.line, scenario=sc, choices=choices, opcodes=OPC[0])) + "\n")
        # (thread t + n is the one that a function of thread t starts)
        self.f.write(json.dumps(dict(t=len(sc["prog"]) * (1 + len(sc["dep"])), ev="begin", js=[], vs=[len(sc["dep"])], x="")) + "\n")
        for e in ev:
            self.f.write(json.dumps(e) + "\n")
        self.line += 1 + len(ev)
        self.f.flush()
        self.m.flush()

    def close(self, **kw):
        self.f.close()
        self.m.close()
        print(json.dumps(dict(runs=self.runs, distinct=len(self.seen), events=self.line - 1, **kw)))
        sys.stdout.flush()
        os._exit(0)


def dfs(pc, sc, bound, maxruns, deadline, out):
    """All schedules with at most `bound` preemptions, depth first."""
    trail = []

    def pol(s, me, en):
        ids = [w.i for w in en]
        k = len(s.choices)
        if k < len(pre):
            c = pre[k]
            if c not in ids:
                c = ids[0]
        else:
            c = me.i if me in en else ids[0]
        trail.append((me.i if me in en else 0, ids, c))
        return [w for w in en if w.i == c][0]
    stack = [((), 0)]
    n = 0
    while stack and n < maxruns and time.time() < deadline:
        (pre, cost) = stack.pop()
        del trail[:]
        (ev, ch, ok) = execute(pc, sc, pol)
        out.add(sc, ev, ch, ok)
        n += 1
        if not ok:
            out.hung = True
            return n, False
        for k in range(len(trail) - 1, len(pre) - 1, -1):
            (me, ids, c) = trail[k]
            for a in ids:
                if a != c:
                    cst = cost + (1 if me in ids else 0)
                    if cst <= bound:
                        stack.append((tuple(t[2] for t in trail[:k]) + (a,), cst))
    return n, not stack


BASE = [
    # one value, two or three threads, failing 0, 1 or 2 times
    dict(dep=[[]], fail=[0], fk=["E"], prog=[[("call", 1)], [("call", 1)]]),
    dict(dep=[[]], fail=[1], fk=["E"], prog=[[("call", 1)], [("call", 1)]]),
    dict(dep=[[]], fail=[1], fk=["B"], prog=[[("call", 1)], [("call", 1)]]),
    dict(dep=[[]], fail=[0], fk=["E"], prog=[[("call", 1)], [("call", -1), ("call", 1)]]),
    dict(dep=[[]], fail=[0], fk=["E"], prog=[[("call", 1)], [("call", 1)], [("call", 1)]]),
    dict(dep=[[]], fail=[1], fk=["E"], prog=[[("call", 1), ("call", 1)], [("call", 1), ("call", -1)]]),
    dict(dep=[[]], fail=[2], fk=["E"], prog=[[("call", 1)], [("call", 1)], [("call", 1)]]),
    # dependencies
    dict(dep=[[2], []], fail=[0, 0], fk=["E", "E"], prog=[[("call", 1)], [("call", 2)]]),
    dict(dep=[[2], []], fail=[0, 1], fk=["E", "E"], prog=[[("call", 1)], [("call", 2), ("call", 1)]]),
    dict(dep=[[2], []], fail=[0, 1], fk=["E", "B"], prog=[[("call", 1)], [("call", 1)]]),
    dict(dep=[[2], []], fail=[1, 0], fk=["E", "E"], prog=[[("call", 2), ("call", 1)], [("call", 1)]]),
    dict(dep=[[3], [3], []], fail=[0, 0, 0], fk=["E"] * 3, prog=[[("call", 1), ("call", 2)], [("call", 2), ("call", 1)]]),
    dict(dep=[[2, 3], [3], []], fail=[0, 0, 1], fk=["E"] * 3, prog=[[("call", 1)], [("call", 3)], [("call", 2)]]),
    # through the collections
    dict(dep=[[], []], fail=[0, 0], fk=["E", "E"], prog=[[("lllist", 1)], [("ld", 2), ("ldget", 1)]]),
    dict(dep=[[], []], fail=[0, 1], fk=["E", "E"], prog=[[("llready", 1)], [("ldvals", 1)]]),
    dict(dep=[[], []], fail=[0, 0], fk=["E", "E"], prog=[[("tldvals", 1), ("tll", 1)], [("ldready", 1), ("ll", 2)]]),
    dict(dep=[[2], []], fail=[0, 0], fk=["E", "E"], prog=[[("tld", 1), ("tldget", 2)], [("lditems", 1)]]),
    dict(dep=[[]], fail=[0], fk=["E"], prog=[[("tllist", 1)], [("ll", -1), ("unlazy", 1)]]),
]


# functions that have another thread request what they need, pairs that need
# one another's neighbours
BASE += [
    dict(dep=[[2], []], fail=[0, 0], fk=["E", "E"], hand=[1, 0], prog=[[("call", 1)], [("call", 2)]]),
    dict(dep=[[2], []], fail=[0, 1], fk=["E", "E"], hand=[1, 0], prog=[[("call", 1)], [("call", 1)]]),
    dict(dep=[[2], [3], []], fail=[0, 0, 0], fk=["E"] * 3, hand=[1, 1, 0], prog=[[("call", 1)], [("call", 3)]]),
    dict(dep=[[2], [], [4], []], fail=[0] * 4, fk=["E"] * 4, prog=[[("call", 1)], [("call", 3)]]),
    dict(dep=[[2], [], [], [3]], fail=[0] * 4, fk=["E"] * 4, prog=[[("call", 1)], [("call", 4)]]),
    dict(dep=[[2], [], [], [3]], fail=[0] * 4, fk=["E"] * 4, slots=[0, 1, 240, 241],
         prog=[[("call", 1)], [("call", 4)]]),
]
for _sc in BASE:
    _sc.setdefault("hand", [0] * len(_sc["dep"]))


def random_scenario(r):
    n = r.choice([1, 1, 1, 2, 2, 3, 4])
    perm = list(range(1, n + 1))
    r.shuffle(perm)
    dep = [[] for _ in range(n)]
    for a in range(n):
        for b in range(a):
            if r.random() < 0.4:
                dep[perm[a] - 1].append(perm[b])
    for d in dep:
        r.shuffle(d)
    allops = ["lllist", "ldvals", "lditems", "tllist", "tldvals", "llready", "ldready"]
    prog = []
    for t in range(r.choice([2, 2, 2, 3, 3, 4])):
        p = []
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            j = r.randint(1, n)
            x = r.random()
            if x < 0.15:
                p.append((r.choice(["call", "call", "ll", "ld"]), -j))
            elif x < 0.3:
                p.append((r.choice(allops), j))
            else:
                p.append((reqs_of(j, r), j))
        prog.append(p)
    hand = [int(r.random() < 0.2) for _ in range(n)]
    slots = list(range(n))
    if r.random() < 0.15:
        # two pairs, anywhere
        n = 4
        (dep, hand) = ([[2], [], [4], []], [0] * 4)
        prog = [[("call", 1)], [("call", 3)]]
    if r.random() < 0.4:
        slots = r.sample(range(r.choice([6, 12, 50, 200])), n)
    return dict(hand=hand, slots=slots, dep=dep, fail=[r.choice([0, 0, 0, 1, 1, 2]) for _ in range(n)],
                fk=[r.choice("EEEB") for _ in range(n)], prog=prog)


def load():
    import warnings
    warnings.simplefilter("ignore")
    patch()
    import pcollections as pc
    LIB[0] = os.path.dirname(pc.__file__)
    return pc


def main():
    mode = sys.argv[1]
    a = sys.argv[2:]
    pc = load()
    t0 = time.time()
    if mode == "one":
        d = json.load(open(a[0]))
        OPC[0] = bool(d.get("opcodes"))
        out = Out(a[1])
        sc = d["scenario"]
        sc.setdefault("hand", [0] * len(sc["dep"]))
        sc["prog"] = [[tuple(q) for q in p] for p in sc["prog"]]
        (ev, ch, ok) = execute(pc, sc, follow(d["choices"], stay))
        out.add(sc, ev, ch, ok)
        out.close()
    seed = int(a[0])
    r = random.Random(seed)
    if mode == "dfs":
        (pick, path, bound, maxruns, secs) = (a[1], a[2], int(a[3]), int(a[4]), float(a[5]))
        OPC[0] = a[6] == "1"
        out = Out(path)
        todo = BASE if pick == "all" else [BASE[int(i)] for i in pick.split(",")]
        full = 0
        for (k, sc) in enumerate(todo):
            left = (t0 + secs - time.time()) / (len(todo) - k)
            (n, fin) = dfs(pc, sc, bound, maxruns, time.time() + left, out)
            full += fin
            if out.hung:
                break
        out.close(complete=full, scenarios=len(todo))
    if mode == "random":
        (path, runs, secs) = (a[1], int(a[2]), float(a[3]))
        OPC[0] = a[4] == "1"
        out = Out(path)
        while out.runs < runs and time.time() - t0 < secs and not out.hung:
            sc = random_scenario(r)
            for _ in range(6):
                x = r.random()
                if x < 0.5:
                    pol = rnd(r, r.choice([0.02, 0.05, 0.1, 0.3, 0.6]))
                else:
                    pol = pct(r, len(sc["prog"]), r.choice([1, 2, 3, 4]),
                              r.choice([20, 60, 150]) * (6 if OPC[0] else 1))
                (ev, ch, ok) = execute(pc, sc, pol)
                out.add(sc, ev, ch, ok)
                if not ok:
                    out.hung = True
                    break
        out.close(scenarios=0)
    if mode == "hist":
        (src, path, secs) = (a[1], a[2], float(a[3]))
        OPC[0] = a[4] == "1"
        out = Out(path)
        same = 0
        n = 0
        for line in open(src):
            if time.time() - t0 > secs or out.hung:
                break
            d = json.loads(line)
            sc = dict(d["sc"])
            sc.setdefault("hand", [0] * len(sc["dep"]))
            sc["prog"] = [[("call", j) for j in p] for p in sc["prog"]]
            (ev, ch, ok) = execute(pc, sc, byhist(d["h"]))
            out.add(sc, ev, ch, ok)
            out.hung = not ok
            same += [[e["t"], e["ev"], e["js"][0]] for e in ev] == d["h"]
            n += 1
        out.close(followed=same, histories=n)


if __name__ == "__main__":
    main()
