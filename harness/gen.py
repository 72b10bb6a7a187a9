"""Generates histories: random walks over the operations, biased by a profile.

The generator decides only what to call.  What the call must do is decided by
the specification, from the recorded trace.
"""
from session import (EMPTY, KINDS, LAZYK, LISTK, MAPK, PERS, SETK, TRANS, Halt)
from universe import NIL

EDIT_L = ["set", "delete", "drop", "pop", "insert", "append", "prepend", "extend", "remove",
          "sort", "reverse", "add", "radd", "mul", "rmul", "iadd", "imul"]

# base weights of the operations, by family: {group: {op: weight}}
COMMON = {
    "conv": dict(copy=2, transient=3, persistent=3, clear=1),
    "read": dict(len=1, bool=1, list=2, contains=3),
    "cmp": dict(eq=3),
    "hash": dict(hash=2, dictkey=2),
    "text": dict(str=3, repr=2),
    "ser": dict(json=2, pickle=2, xpickle=1, copycopy=2, deepcopy=1),
    "misuse": dict(misuse=2),
    "iter": dict(iter=3, next=6),
    "raw": dict(is_lazy=2, is_ready=2, getlazy=3, ready_all=1, hold=2, holdlazy=1),
    "lone": dict(lzcall=1, lzready=1, lzheld=0.3, unlazy=1, lznew=0.3),
    "bad": dict(badindex=1),
}
OPS = {
    "list": {
        "read": dict(get=5, slice=6, rev=2, index=4, count=3),
        "edit": dict(set=4, delete=3, drop=3, pop=4, insert=4, append=4, prepend=4, remove=3,
                     reverse=1, sort=2),
        "bulk": dict(extend=4, add=2, radd=2, mul=1, rmul=1, iadd=2, imul=1),
        "cmp": dict(cmp=3),
    },
    "set": {
        "edit": dict(add=6, discard=4, remove=4, pop=3),
        "bulk": dict(addall=2, discardall=2, removeall=2, union=2, intersection=2, difference=2,
                     symdiff=2, update=2, intersection_update=2, difference_update=2,
                     symdiff_update=2, ior=1, iand=1, isub=1, ixor=1),
        "algebra": {"or": 1, "and": 1, "sub": 1, "xor": 1, "ror": 1, "rand": 1, "rsub": 1, "rxor": 1},
        "cmp": dict(cmp=3, isdisjoint=2, issubset=2, issuperset=2),
    },
    "map": {
        "read": dict(getitem=4, get=4),
        "edit": dict(set=7, drop=3, delete=4, pop=4, popitem=2, setdefault=3),
        "bulk": dict(update=4, setall=2, dropall=2, deleteall=2),
        "view": dict(rev=1, vlist=4, vrev=2, vlen=1, vcontains=4, vodd=0.4, vrepr=0.2, vand=1, vor=1, vsub=1, vxor=1,
                     vrsub=1, veq=1, vle=1, vlt=1, vge=1, vgt=1, vdisj=1),
    },
}
ONLY_PERS = {"drop", "radd", "rmul", "misuse", "hash", "dictkey", "setall", "dropall", "deleteall"}
ONLY_TRANS = {"iadd", "imul", "update_", "intersection_update", "difference_update",
              "symdiff_update", "ior", "iand", "isub", "ixor"}

DERIVE = {"con", "transient", "persistent", "copy", "hold", "holdlazy", "copycopy"}
LONE = {"lzcall", "lzready", "lzheld", "unlazy", "lznew"}

DEFAULT_GROUPS = dict(conv=1.0, read=1.0, cmp=0.5, hash=0.4, text=0.25, ser=0.25, misuse=0.2,
                      lone=0.3, bad=0.15, iter=0.4, raw=1.0, edit=1.5, bulk=1.0, algebra=1.0, view=1.0, con=1.0)
PALETTES = [("num", 6), ("coll", 4), ("K", 6), ("str", 3), ("basic", 5), ("odd", 2), ("nan", 1),
            ("nest", 2), ("twin", 4), ("esc", 1), ("xhash", 1)]
SIZES = [(0, 3), (1, 4), (2, 5), (3, 5), (4, 4), (5, 3), (6, 2), (8, 1), (12, 1)]
BIG = [(31, 2), (32, 3), (33, 3), (34, 1), (63, 1), (64, 1), (65, 1), (66, 1), (100, 1)]
HUGE = [(300, 2), (1023, 1), (1024, 2), (1025, 2), (1100, 1)]


def fam(k):
    return "list" if k in LISTK else "set" if k in SETK else "map"


class Gen:
    def __init__(self, rng, sess, prof):
        self.r = rng
        self.s = sess
        self.u = sess.u
        self.p = prof
        g = dict(DEFAULT_GROUPS)
        g.update(prof.get("groups", {}))
        self.groups = g
        self.minimal = sess.cls["pl"].__module__ == "minimal"
        self.optab = {}
        boost = prof.get("ops", {})
        for k in KINDS:
            t = []
            tabs = [COMMON, OPS[fam(k)]]
            for tab in tabs:
                for (grp, ops) in tab.items():
                    for (op, w) in ops.items():
                        if not self.allowed(k, op):
                            continue
                        if self.minimal and (op == "vrev" or op == "rev" and k in MAPK):
                            continue    # (collections.abc.Mapping does not provide these)
                        ww = w * g.get(grp, 1.0) * boost.get(op, 1.0)
                        if ww > 0:
                            t.append((op, ww))
            self.optab[k] = t
        js = set(self.u.groups["j"])
        self.js = js
        self.cmpable = set()
        for n in ("num", "str", "K", "odd", "coll"):
            self.cmpable |= set(self.u.groups[n])
        # values that can be sorted, and values that can at least be compared
        self.sortable = (self.cmpable - set(self.u.groups["nan"])) | {r["tok"] for r in self.u.rows if r["oc"] == 7}
        self.cmpable |= set(self.u.groups["nan"] + self.u.groups["nest"])
        self.eqc = {r["tok"]: r["eq"] for r in self.u.rows}
        self.twins = {}
        for r in self.u.rows:
            self.twins.setdefault(r["eq"], []).append(r["tok"])
        self.counts = {}

    @staticmethod
    def allowed(k, op):
        if op in ("is_lazy", "is_ready"):
            return k in ("ll", "ld", "tld")
        if op == "getlazy":
            return k in LAZYK
        if op in ("ready_all", "hold"):
            return k in ("ll", "ld", "tld")
        if op == "badindex":
            return k in LISTK
        if op == "json":
            return k not in SETK
        if op in ("transient",):
            return k in PERS
        if op in ("persistent",):
            return k in TRANS
        if op in ("misuse", "hash", "dictkey"):
            return k in PERS
        if k in LISTK:
            if op == "drop":
                return k in PERS
            if op == "imul":
                return k in TRANS
        if k in SETK:
            if op in ("update", "intersection_update", "difference_update", "symdiff_update",
                      "ior", "iand", "isub", "ixor"):
                return k in TRANS
        if k in MAPK:
            if op in ("drop", "setall", "dropall", "deleteall"):
                return k in PERS
        return True

    # ------------------------------------------------------------- choosing
    def wch(self, pairs):
        return self.r.choices([a for (a, _) in pairs], [w for (_, w) in pairs])[0]

    def size(self):
        x = self.r.random()
        if self.chain and x < 0.25:
            return self.r.choice([6, 9, 12, 17, 24, 33, 40])
        if x < self.p.get("p_huge", 0.0):
            return self.wch(HUGE)
        if x < self.p.get("p_big", 0.06):
            return self.wch(BIG)
        return self.wch(self.p.get("sizes", SIZES))

    def palette(self):
        r = self.r
        pals = self.p.get("palettes", PALETTES)
        n = r.choice([1, 1, 2, 2, 3])
        toks = []
        # (now and then most keys of a history have the same hash)
        self.chain = r.random() < self.p.get("p_chain", 0.05)
        for _ in range(n):
            g = self.wch(pals)
            m = self.u.groups[g]
            toks += r.sample(m, min(len(m), r.randint(2, 6)))
        toks = list(dict.fromkeys(toks))
        r.shuffle(toks)
        self.pal = toks[:12] or [1, 2]
        if self.chain:
            self.pal = self.pal[:4] + r.sample(self.u.groups["chain"], r.randint(6, 40))
        self.hpal = [t for t in self.pal if self.u.hashable(t)] or [1, 2]
        self.nz = 0

    def begin(self):
        r = self.r
        self.palette()
        self.full = r.random() < self.p.get("p_full", 0.7)
        self.lazy_on = r.random() < self.p.get("p_lazy", 0.35)
        lt = []
        if self.lazy_on:
            pf = self.p.get("p_fail", 0.12)
            failing = r.random() < 0.5
            for j in range(1, r.randint(2, 9)):
                f = r.choice([1, 1, 2, 9]) if failing and r.random() < pf * 2 else 0
                deps = []
                cand = [i + 1 for i in range(len(lt)) if lt[i][1] == 0]
                if cand and r.random() < 0.2:
                    deps = r.sample(cand, min(len(cand), r.choice([1, 1, 2])))
                lt.append([self.anyval(False), f, deps])
        self.nz = len(lt)
        self.s.begin(lt, self.full)
        self.order = list(EMPTY.values())
        self.hot = ()
        self.hotn = 0
        self.its = []
        self.failz = {-(j + 1) for (j, row) in enumerate(lt) if row[1]}

    def anyval(self, lazies=True, k=None):
        """A value for a list item or dict value."""
        r = self.r
        if lazies and self.nz and r.random() < (0.45 if k in LAZYK else 0.06):
            return -r.randint(1, self.nz)
        x = r.random()
        if x < 0.03:
            return r.choice(self.u.groups["unh"])
        if x < 0.06:
            return r.randint(1000, 1040)
        return r.choice(self.pal)

    def key(self, bad=True):
        r = self.r
        x = r.random()
        if bad and x < 0.02:
            return r.choice(self.u.groups["unh"])
        if x < 0.08:
            return r.randint(1000, 1040)
        return r.choice(self.hpal)

    def item(self, k, bad=True):
        """An element for an object of kind k."""
        if k in SETK:
            return self.key(bad)
        return self.anyval(True, k)

    def items(self, k, n=None, bad=False):
        n = self.size() if n is None else n
        if self.chain and n > 5:
            return self.r.sample(self.pal, min(n, len(self.pal)))
        if n > 12:
            base = 1000 + self.r.choice([0, 0, 5])
            if n > 1590:
                base = 1000
            c = list(range(base, base + n))
            if self.r.random() < 0.3:
                self.r.shuffle(c)
            for _ in range(self.r.randint(0, 4)):
                c[self.r.randrange(n)] = self.item(k, False)
            return c
        return [self.item(k, bad) for _ in range(n)]

    def pairs(self, k, n=None, bad=False, lazies=True):
        n = self.size() if n is None else n
        if self.chain and n > 5:
            return [[a, self.anyval(lazies, k)] for a in self.r.sample(self.hpal, min(n, len(self.hpal)))]
        if n > 12:
            b = 1000
            c = [[b + i, self.anyval(lazies, k) if i % 5 == 0 else b + i] for i in range(n)]
            if self.r.random() < 0.3:
                self.r.shuffle(c)
            return c
        return [[self.key(bad), self.anyval(lazies, k)] for _ in range(n)]

    def ec(self, t):
        return self.eqc.get(t, t)

    def dedup(self, c):
        seen = {}
        for t in c:
            seen.setdefault(self.ec(t), t)
        return list(seen.values())

    def dedup_pairs(self, c):
        seen = {}
        for (a, b) in c:
            e = self.ec(a)
            if e in seen:
                seen[e] = [seen[e][0], b]
            else:
                seen[e] = [a, b]
        return list(seen.values())

    def hashes(self, c):
        return all(self.u.hashable(t) for t in c)

    def objs(self, kinds):
        return [i for (i, k) in self.s.kind.items() if k in kinds]

    def contents(self, i):
        c = self.s.last.get(i, [[]])[0]
        return [] if c and (c[0] == -9998 or c[0] == [-9998, -9998]) else c

    # ------------------------------------------------------------- arguments
    def nat(self, k, c):
        return dict(id=0, k=k, c=c)

    def objarg(self, kinds, prefer=None):
        o = self.objs(kinds)
        if not o:
            return None
        if prefer is not None and prefer in o and self.r.random() < 0.08:
            i = prefer
        else:
            i = self.r.choice(o[-6:] if self.r.random() < 0.6 else o)
        return dict(id=i, k="", c=[])

    def elems(self, k, n, around=None, bad=False):
        """Tokens, half of them taken from the contents of object around."""
        c = self.items(k, n, bad) if n <= 12 else self.items(k, n)
        if around is not None:
            have = self.contents(around)
            if have and isinstance(have[0], list):
                have = [p[0] for p in have]
            if have:
                for j in range(len(c)):
                    if self.r.random() < 0.5:
                        t = self.r.choice(have)
                        if t > 0:
                            if self.r.random() < 0.2:
                                t = self.r.choice(self.twins.get(self.ec(t), [t]))
                            c[j] = t
        return c

    def iterarg(self, k, around=None, bad=False, fail=False, objs=True, sets=True, n=None):
        """An iterable of elements for kind k."""
        r = self.r
        x = r.random()
        if objs and x < 0.35:
            kinds = set(LISTK)
            if self.full or k not in LISTK:
                kinds |= MAPK
            if sets:
                kinds |= SETK
            a = self.objarg(kinds, around)
            if a is not None and (k not in SETK or self.okitems(a["id"])):
                return a
        c = self.elems(k, self.size() if n is None else n, around, bad)
        kinds = ["L", "L", "T", "G", "I"]
        if self.hashes(c) and not any(t < 0 for t in c):
            if sets:
                kinds += ["S", "F"]
            kinds += ["V", "D"]
        if fail and r.random() < 0.15:
            kinds = ["X"]
        kk = r.choice(kinds)
        if kk in ("S", "F", "V"):
            c = self.dedup(c)
        if kk == "D":
            c = [[t, self.anyval()] for t in self.dedup(c)]
        if kk in ("S", "F") and not sets:
            kk = "L"
        return self.nat(kk, c)

    def okitems(self, i):
        """Can all items of object i be set elements without a failure?"""
        k = self.s.kind[i]
        if k in MAPK or k in SETK:
            return True
        for t in self.contents(i):
            if t < 0:
                if t in self.failz or not self.u.hashable(self.s.lt[-t - 1]["v"]):
                    return False
            elif not self.u.hashable(t):
                return False
        return self.full   # otherwise the contents may be out of date

    def pairarg(self, k, fail=False, n=None):
        r = self.r
        x = r.random()
        if x < 0.3:
            a = self.objarg(MAPK)
            if a is not None:
                return a
        if fail and x > 0.94:
            return self.nat(r.choice(["PB", "BI", "O"]), [])
        c = self.pairs(k, self.size() if n is None else n, bad=fail)
        kinds = ["P", "PL", "GP"]
        if self.hashes([p[0] for p in c]):
            kinds += ["D", "D", "MP"]
        if fail and r.random() < 0.1:
            kinds = ["XP"]
        kk = r.choice(kinds)
        if kk in ("D", "MP"):
            c = self.dedup_pairs(c)
        return self.nat(kk, c)

    def kwargs(self):
        ks = self.r.sample(self.u.groups["key"], self.r.choice([1, 1, 2]))
        return [[k, self.anyval()] for k in ks]

    def same(self, i, kind=None):
        """An argument or a new object with the contents of object i, nearly."""
        r = self.r
        k = self.s.kind[i]
        c = [list(p) if isinstance(p, list) else p for p in self.contents(i)]
        if k in MAPK:
            for p in c:
                if r.random() < 0.3:
                    p[0] = r.choice(self.twins.get(self.ec(p[0]), [p[0]]))
                if r.random() < 0.3 and p[1] > 0:
                    p[1] = r.choice(self.twins.get(self.ec(p[1]), [p[1]]))
        else:
            for j in range(len(c)):
                if r.random() < 0.3 and c[j] > 0:
                    c[j] = r.choice(self.twins.get(self.ec(c[j]), [c[j]]))
        if k not in LISTK and r.random() < 0.5:
            r.shuffle(c)
        x = r.random()
        if c and x < 0.3:
            j = r.randrange(len(c))
            if k in MAPK:
                if r.random() < 0.5:
                    c[j][1] = self.anyval()
                else:
                    c[j][0] = self.key(False)
                    c = self.dedup_pairs(c)
            elif r.random() < 0.5:
                del c[j]
            else:
                c[j] = self.item(k, False)
        elif x < 0.36:
            c.append([self.key(False), self.anyval()] if k in MAPK else self.item(k, False))
        if k in SETK:
            c = self.dedup(c)
        if k in MAPK:
            c = self.dedup_pairs(c)
        return c

    # ------------------------------------------------------------ operations
    def pick(self):
        """The receiver of the next operation."""
        kw = self.p.get("kinds", {})
        ids = [i for i in self.s.objs]
        if not ids:
            return None
        recent = self.order[-6:]
        self.hotn -= 1
        if self.hotn < 0:
            self.hot = ()
        ws = []
        for i in ids:
            w = kw.get(self.s.kind[i], 0.3 if kw else 1.0)
            if i in self.hot:
                w *= 10
            elif i in recent:
                w *= 4
            if i < 10:
                w *= 0.35
            ws.append(w)
        if sum(ws) <= 0:
            return None
        return self.r.choices(ids, ws)[0]

    def call(self, op, **kw):
        e = self.s.call(op, **kw)
        # an object and what was made from it: both are likely to be used next
        if op in DERIVE and e["res"]["id"] >= 10:
            src = [x["id"] for x in kw.get("xs", ()) if x["id"] >= 10] if op == "con" else [kw["r"]]
            if src and src[0] >= 10:
                self.hot = {src[0], e["res"]["id"]}
                self.hotn = 7
        for d in e["nw"]:
            if d["k"] == "it":
                self.its.append((d["id"], kw["r"], kw["s"]))
            else:
                self.order.append(d["id"])
        self.counts[op] = self.counts.get(op, 0) + 1
        if op == "next" and e["res"]["k"] == "exc":
            self.its = [t for t in self.its if t[0] != kw["r"]]
            self.s.free([kw["r"]])      # a failed iterator may be finished or not
        return e

    def trim(self):
        live = [i for i in self.order if i >= 10 and i in self.s.objs]
        cap = self.p.get("cap", 11)
        if len(live) > cap:
            gone = self.r.sample(live[:-2], min(len(live) - cap + 2, len(live) - 2))
            self.s.free(gone)
            self.order = [i for i in self.order if i not in gone]
        self.its = [t for t in self.its if t[0] in self.s.iters]
        if len(self.its) > 4:
            t = self.its.pop(0)
            self.s.free([t[0]])

    def history(self):
        self.begin()
        n = max(4, int(self.r.gauss(self.p.get("ops_mean", 38), 10)))
        self.big = False
        try:
            for j in range(self.r.choice([1, 2, 2, 3])):
                self.construct()
            for j in range(n):
                self.step()
                self.trim()
        except Halt:
            pass

    def step(self):
        con = self.groups["con"]
        if self.r.random() < 0.08 * con:
            return self.construct()
        for attempt in range(20):
            i = self.pick()
            if i is None:
                return self.construct()
            k = self.s.kind[i]
            op = self.wch(self.optab[k])
            kw = self.args(i, k, op)
            if kw is None:
                continue
            # a key that raises an exception in the middle of the call
            if op not in LONE and self.r.random() < self.p.get("p_arm", 0.04):
                kw["arm"] = self.r.choice([1, 1, 2, 2, 3, 4, 5, 8])
            return self.call(op, r=kw.pop("r", i), **kw)

    def conkind(self):
        kw = self.p.get("con_kinds") or self.p.get("kinds")
        if kw:
            return self.wch(list(kw.items()))
        if self.lazy_on and self.r.random() < 0.5:
            return self.r.choice(["ll", "tll", "ld", "tld"])
        return self.r.choice(KINDS)

    def construct(self):
        r = self.r
        k = self.conkind()
        bad = r.random() < 0.08 * self.p.get("bad", 1.0)
        x = r.random()
        if x < 0.06:
            kw = self.kwargs() if (k in MAPK and r.random() < 0.4) or (bad and r.random() < 0.3) else []
            return self.call("con", s=k, xs=[], kw=kw)
        if bad and r.random() < 0.1:
            return self.call("con", s=k, xs=[self.nat("O", [])])
        if bad and r.random() < 0.1:
            return self.call("con", s=k, xs=[self.nat("L", []), self.nat("L", [])])
        if k in MAPK:
            return self.call("con", s=k, xs=[self.pairarg(k, bad)],
                             kw=self.kwargs() if r.random() < 0.15 else [])
        if bad and r.random() < 0.1:
            return self.call("con", s=k, xs=[self.iterarg(k)], kw=self.kwargs())
        arm = r.choice([1, 2, 3, 5]) if r.random() < self.p.get("p_arm", 0.04) else 0
        return self.call("con", s=k, xs=[self.iterarg(k, None, bad, bad)], arm=arm)

    def n_of(self, i):
        if self.full:
            return len(self.contents(i))
        try:
            return len(self.s.objs[i])
        except Exception:
            return 0

    def index(self, n, beyond=True):
        r = self.r
        x = r.random()
        if n == 0 or (beyond and x < 0.12):
            return r.choice([-n - 2, -n - 1, n, n + 1, n + 3, 0, -1])
        if x < 0.3:
            return r.choice([0, -1, n - 1, -n])
        if n > 32 and x < 0.5:
            return min(n - 1, r.choice([30, 31, 32, 33, n - 32, n - 33]) % n)
        return r.randrange(-n, n)

    def bound(self, n):
        if self.r.random() < 0.25:
            return NIL
        return self.r.randint(-n - 2, n + 2)

    def plain(self, i):
        """No lazy objects in the contents of object i."""
        for t in self.contents(i):
            if (t[1] if isinstance(t, list) else t) < 0:
                return False
        return True

    def comparable(self, toks, among=None):
        for t in toks:
            if t < 0:
                t = self.s.lt[-t - 1]["v"]
            if t < 1000 and t not in (among or self.cmpable):
                return False
        return True

    def arg_tokens(self, a):
        return self.contents(a["id"]) if a["id"] else a["c"]

    def args(self, i, k, op):
        f = getattr(self, "a_" + op, None)
        if f is not None:
            return f(i, k)
        return {}

    # common
    def a_clear(self, i, k):
        return {} if self.r.random() < (0.35 if k in TRANS else 0.7) else None

    def a_list(self, i, k):
        return dict(var=self.r.randrange(4))

    def member(self, i, k):
        """A value to look for: often one that is there."""
        c = self.contents(i)
        if c and self.r.random() < 0.55:
            p = self.r.choice(c)
            t = p[0] if k in MAPK else p
            if t < 0:
                return self.s.lt[-t - 1]["v"] if k in LAZYK else t
            if self.r.random() < 0.3:
                t = self.r.choice(self.twins.get(self.ec(t), [t]))
            return t
        return self.key() if k not in LISTK else self.anyval(False, k)

    def sought(self, i, k):
        """A value to look for in a list, now and then one equal to everything."""
        return self.wild(i, k) or self.member(i, k)

    def wild(self, i, k):
        if not self.full or self.r.random() < 0.95:
            return 0
        c = self.contents(i)
        if c and isinstance(c[0], list):
            c = [p[1] for p in c]
        c = [self.s.lt[-t - 1]["v"] if t < 0 else t for t in c]
        # (a persistent collection is not equal to a value of another type,
        # whatever that value says)
        return 0 if set(c) & set(self.u.groups["nest"]) else self.u.groups["wild"][0]

    def a_contains(self, i, k):
        return dict(a=[self.sought(i, k) if k in LISTK else self.member(i, k)])

    def other(self, i, k, kinds):
        """Something to compare object i with."""
        r = self.r
        x = r.random()
        if x < 0.3:
            a = self.objarg(kinds)
            if a is not None:
                return a
        if x < 0.38 and fam(k) != "map" or x < 0.34:
            a = self.objarg(set(KINDS))
            return a
        c = self.same(i)
        if any(isinstance(p, list) and p[0] < 0 for p in c):
            return None
        if k in LISTK:
            if x < 0.7:
                kk = r.choice(["pl", "tl", "ll", "tll"])
                e = self.call("con", s=kk, xs=[self.nat(r.choice(["L", "G", "T"]), c)])
                return dict(id=e["res"]["id"], k="", c=[]) if e["res"]["k"] == "obj" else None
            return self.nat("L" if x < 0.95 else r.choice(["T", "O"]), c)
        if k in SETK:
            if not self.hashes(c):
                return None
            if x < 0.7:
                e = self.call("con", s=r.choice(["ps", "ts"]), xs=[self.nat(r.choice(["L", "G", "S"]), c)])
                return dict(id=e["res"]["id"], k="", c=[]) if e["res"]["k"] == "obj" else None
            return self.nat(r.choice(["S", "F", "V"]) if x < 0.95 else r.choice(["L", "O"]), c)
        if not self.hashes([p[0] for p in c]):
            return None
        if x < 0.7:
            e = self.call("con", s=r.choice(["pd", "td", "ld", "tld"]),
                          xs=[self.nat(r.choice(["P", "GP", "D"]), c)])
            return dict(id=e["res"]["id"], k="", c=[]) if e["res"]["k"] == "obj" else None
        return self.nat("D" if x < 0.95 else r.choice(["L", "O"]), c if x < 0.95 else [])

    def a_eq(self, i, k):
        a = self.other(i, k, LISTK if k in LISTK else SETK if k in SETK else MAPK)
        if a is None or (a["id"] and a["id"] not in self.s.objs):
            return None
        if not a["id"] and a["k"] in ("L",) and k not in LISTK:
            a = self.nat("L", [])
        return dict(xs=[a])

    def a_cmp(self, i, k):
        r = self.r
        s = r.choice(["lt", "le", "gt", "ge"])
        a = self.other(i, k, LISTK if k in LISTK else SETK)
        if a is None:
            return None
        if a["id"]:
            kx = self.s.kind[a["id"]]
            if kx in MAPK:
                return None
        elif a["k"] not in ("L", "S", "F", "O"):
            return None
        if k in LISTK and (not self.comparable(self.contents(i)) or not self.comparable(
                self.arg_tokens(a)) or not self.full):
            return None
        if k in SETK and not a["id"] and a["k"] == "L":
            a = self.nat("L", [])
        return dict(s=s, a=[r.choice([0, 0, 1])], xs=[a])

    def a_dictkey(self, i, k):
        a = self.other(i, k, (LISTK if k in LISTK else SETK if k in SETK else MAPK) & PERS)
        if a is None or not a["id"] or self.s.kind[a["id"]] not in PERS:
            return None
        return dict(xs=[a])

    def a_str(self, i, k):
        if not self.full and (k not in LISTK or self.nz):
            return None
        return {} if k in LAZYK or self.plain(i) else None

    def a_repr(self, i, k):
        return None if k not in LISTK and not self.full else {}

    def a_vrepr(self, i, k):
        return dict(s=self.mode(), var=self.r.randrange(2)) if self.full else None

    def a_json(self, i, k):
        for t in self.contents(i):
            for q in (t if isinstance(t, list) else [t]):
                if q < 0:
                    if k not in LAZYK:
                        return None
                    q = self.s.lt[-q - 1]["v"]
                if q < 1000 and q not in self.js:
                    return None
        return {} if self.full else None

    def a_pickle(self, i, k):
        if not (k in LAZYK or self.plain(i)) or not self.full:
            return None
        for t in self.contents(i):
            for q in (t if isinstance(t, list) else [t]):
                if (self.s.lt[-q - 1]["v"] if q < 0 else q) in self.u.groups["nan"]:
                    return None     # a copied nan is another value
        return dict(a=[self.r.randint(0, 5)])

    def a_xpickle(self, i, k):
        if not (k in LAZYK or self.plain(i)) or not self.full:
            return None
        return dict(a=[self.r.randint(0, 5)])

    def a_deepcopy(self, i, k):
        return {} if (k in LAZYK or self.plain(i)) and self.full else None

    def a_misuse(self, i, k):
        s = self.r.choice(["setattr", "delattr", "setitem", "delitem", "setslice", "delslice"])
        return dict(s=s, a=[self.r.randrange(6)])

    def a_iter(self, i, k):
        if k in SETK:
            return dict(s="fwd") if self.full else None
        if k in LISTK:
            return dict(s=self.r.choice(["fwd", "fwd", "rev"]))
        return dict(s=self.r.choice(["fwd", "keys", "values", "items", "rev", "rkeys", "rvalues",
                                     "ritems"][:4 if self.minimal else 8]))

    def a_next(self, i, k):
        its = [t for t in self.its if t[0] in self.s.iters]
        if not its:
            return None
        t = self.r.choice(its)
        return dict(r=t[0], s=t[2])

    def a_is_lazy(self, i, k):
        if k in LISTK:
            return dict(a=[self.index(self.n_of(i))])
        t = self.member(i, k)
        return dict(a=[t]) if self.u.hashable(t) else None

    a_is_ready = a_is_lazy

    def a_getlazy(self, i, k):
        kw = self.a_is_lazy(i, k)
        if kw and k in MAPK and self.r.random() < 0.3:
            kw["a"].append(self.r.choice(self.pal))
        return kw

    def a_hold(self, i, k):
        return {}

    def a_holdlazy(self, i, k):
        if k not in ("ll", "ld", "tld") and self.r.random() < 0.7:
            return None
        return dict(var=self.r.randrange(2))

    def a_lzcall(self, i, k):
        return dict(r=0, a=[-self.r.randint(1, self.nz)]) if self.nz else None

    a_lzready = a_lzheld = a_lzcall

    def a_unlazy(self, i, k):
        return dict(r=0, a=[self.anyval(True, "ll")])

    def a_lznew(self, i, k):
        return dict(r=0, var=self.r.randrange(4))

    def a_badindex(self, i, k):
        s = self.r.choice(["get", "set", "delete", "drop", "pop", "insert", "index", "mul", "rmul",
                           "imul"])
        if s == "imul" and k in PERS or s == "drop" and k in TRANS:
            return None
        return dict(s=s, var=self.r.randrange(4))

    # lists
    def a_get(self, i, k):
        if k in MAPK:
            t = [self.member(i, k)]
            if self.r.random() < 0.5:
                t.append(self.r.choice(self.pal))
            return dict(a=t)
        return dict(a=[self.index(self.n_of(i))])

    def a_slice(self, i, k):
        n = self.n_of(i)
        r = self.r
        st = r.choice([NIL, NIL, NIL, 1, 1, -1, -1, 2, -2, 3, -3, n + 1, -n - 1])
        if r.random() < 0.03:
            st = 0
        return dict(a=[self.bound(n), self.bound(n), st])

    def a_index(self, i, k):
        n = self.n_of(i)
        a = [self.sought(i, k)]
        x = self.r.random()
        if x < 0.6:
            a.append(self.r.randint(-n - 2, n + 2))
            if x < 0.35:
                a.append(self.r.randint(-n - 2, n + 2))
        return dict(a=a)

    def a_count(self, i, k):
        return dict(a=[self.sought(i, k)])

    def a_set(self, i, k):
        if k in MAPK:
            t = self.member(i, k)
            return dict(a=[t, self.anyval(True, k)])
        return dict(a=[self.index(self.n_of(i)), self.item(k)])

    def a_delete(self, i, k):
        if k in MAPK:
            return dict(a=[self.member(i, k)])
        if k in PERS and self.r.random() < 0.2:
            return dict(a=[])
        return dict(a=[self.index(self.n_of(i))])

    a_drop = a_delete

    def a_pop(self, i, k):
        if k in SETK:
            return {}
        if k in MAPK:
            a = [self.member(i, k)]
            if self.r.random() < 0.4:
                a.append(self.r.choice(self.pal))
            return dict(a=a)
        return dict(a=[] if self.r.random() < 0.3 else [self.index(self.n_of(i))])

    def a_insert(self, i, k):
        n = self.n_of(i)
        return dict(a=[self.r.randint(-n - 2, n + 2) if self.r.random() < 0.7 else self.index(n),
                       self.item(k)])

    def a_append(self, i, k):
        return dict(a=[self.item(k)])

    a_prepend = a_append

    def a_remove(self, i, k):
        return dict(a=[self.sought(i, k) if k in LISTK else self.member(i, k)])

    def toobig(self, i, lim=250):
        return self.n_of(i) > lim

    def a_extend(self, i, k):
        if self.toobig(i, 1100):
            return None
        if self.r.random() < 0.03:
            return dict(xs=[self.nat("O", [])])
        return dict(xs=[self.iterarg(k, i, fail=True, sets=False)])

    def a_sort(self, i, k):
        c = self.contents(i)
        if not self.full or len(c) > 110 or not self.comparable(c, self.sortable):
            return None
        x = self.r.random()
        s = "none" if x < 0.6 else "neg" if x < 0.8 else "const" if x < 0.95 else "boom"
        return dict(s=s, a=[self.r.randrange(2)])

    def a_reverse(self, i, k):
        return {}

    def a_add(self, i, k):
        r = self.r
        if k in SETK:
            return dict(a=[self.member(i, k) if r.random() < 0.3 else self.key()])
        if self.toobig(i):
            return None
        if r.random() < 0.5:
            a = self.objarg({"pl", "ll"} if k in PERS else LISTK, i)
            if a is None or self.toobig(a["id"]):
                return None
            return dict(xs=[a])
        return dict(xs=[self.nat("L" if r.random() < 0.9 else r.choice(["T", "O", "G"]), self.items(k))])

    def a_radd(self, i, k):
        if self.toobig(i):
            return None
        return dict(xs=[self.nat("L" if self.r.random() < 0.93 else "T", self.items(k))])

    def a_mul(self, i, k):
        n = self.n_of(i)
        return dict(a=[self.r.choice([-1, 0, 1, 2, 3] if n < 40 else [-1, 0, 1, 2])]) if n < 120 else None

    a_rmul = a_mul
    a_imul = a_mul

    def a_iadd(self, i, k):
        if self.toobig(i):
            return None
        if k in PERS:
            return self.a_add(i, k) and None
        r = self.r
        if r.random() < 0.5:
            a = self.objarg(LISTK, i)
            return dict(xs=[a]) if a and not self.toobig(a["id"]) else None
        return dict(xs=[self.nat("L" if r.random() < 0.95 else "O", self.items(k))])

    # sets
    def a_discard(self, i, k):
        return dict(a=[self.member(i, k)])

    def bulk1(self, i, k, fail=True, ordered=False):
        r = self.r
        if r.random() < 0.02:
            return dict(xs=[self.nat("O", [])])
        bad = fail and r.random() < 0.12
        return dict(xs=[self.iterarg(k, i, bad=bad, fail=fail, sets=not ordered)])

    def a_addall(self, i, k):
        return self.bulk1(i, k)

    a_discardall = a_addall

    def a_removeall(self, i, k):
        r = self.r
        c = self.contents(i)
        if c and r.random() < 0.6:
            have = [p[0] if k in MAPK else p for p in c]
            return dict(xs=[self.nat(r.choice(["L", "T", "G"]),
                                     r.sample(have, r.randint(0, min(len(have), 6))))])
        return self.bulk1(i, k, ordered=True)

    a_deleteall = a_removeall

    def multi(self, i, k):
        r = self.r
        n = r.choice([0, 1, 1, 1, 1, 2, 2, 3])
        if n == 1:
            x = r.random()
            if x < 0.02:
                return dict(xs=[self.nat("O", [])])
            if x < 0.08:
                return dict(xs=[self.nat("X", self.elems(k, r.randint(0, 3), i))])
            if x < 0.11:
                return dict(xs=[self.nat("L", [r.choice(self.u.groups["unh"])])])
        return dict(xs=[self.iterarg(k, i) for _ in range(n)])

    a_union = a_intersection = a_difference = multi
    a_intersection_update = a_difference_update = multi

    def a_symdiff(self, i, k):
        kw = self.multi(i, k)
        if k == "ts":
            kw["xs"] = kw["xs"][:1]
        return kw if kw["xs"] else None

    def a_symdiff_update(self, i, k):
        kw = self.multi(i, k)
        kw["xs"] = kw["xs"][:1]
        return kw if kw["xs"] else None

    def a_update(self, i, k):
        if k in SETK:
            return self.multi(i, k)
        r = self.r
        if k in LISTK:
            return None
        x = r.random()
        if x < 0.05:
            return dict(xs=[], kw=self.kwargs() if r.random() < 0.6 else [])
        n = 1
        xs = [self.pairarg(k, fail=r.random() < 0.3) for _ in range(n)]
        if k == "ld" and any(a["id"] for a in xs) and self.failz:
            return None
        if sum(len(self.arg_tokens(a)) for a in xs) > 200 and self.n_of(i) > 100:
            return None
        return dict(xs=xs, kw=self.kwargs() if r.random() < 0.2 else [])

    def binary(self, i, k):
        r = self.r
        x = r.random()
        if x < 0.04:
            return dict(xs=[self.nat(r.choice(["L", "O"]), [])])
        if x < 0.5:
            a = self.objarg(SETK, i)
            if a is not None:
                return dict(xs=[a])
        c = self.dedup([t for t in self.elems(k, self.size(), i) if self.u.hashable(t)])
        return dict(xs=[self.nat(r.choice(["S", "F", "V"]), c)])

    a_or = a_and = a_sub = a_xor = binary
    a_ior = a_iand = a_isub = a_ixor = binary

    def rbinary(self, i, k):
        c = self.dedup([t for t in self.elems(k, self.size(), i) if self.u.hashable(t)])
        return dict(xs=[self.nat(self.r.choice(["S", "F"]), c)])

    a_ror = a_rand = a_rsub = a_rxor = rbinary

    def rel(self, i, k):
        r = self.r
        x = r.random()
        if x < 0.03:
            return dict(xs=[self.nat("L", [r.choice(self.u.groups["unh"])])])
        if x < 0.55:
            # around the set's own contents
            c = self.dedup([t for t in self.same(i) if self.u.hashable(t)])
            y = r.random()
            if y < 0.25 and c:
                c = r.sample(c, r.randint(0, len(c)))
            elif y < 0.5:
                c = self.dedup(c + [self.key(False) for _ in range(2)])
            elif y < 0.6:
                have = {self.ec(t) for t in self.contents(i)}
                c = [t for t in self.dedup(self.hpal) if self.ec(t) not in have]
            return dict(xs=[self.nat(r.choice(["L", "T", "G", "S", "F", "V"]), c)])
        return dict(xs=[self.iterarg(k, i)])

    a_isdisjoint = a_issubset = a_issuperset = rel

    # maps
    def a_getitem(self, i, k):
        return dict(a=[self.member(i, k)])

    def a_setdefault(self, i, k):
        a = [self.member(i, k)]
        if self.r.random() < 0.8:
            a.append(self.anyval(True, k))
        return dict(a=a)

    def a_setall(self, i, k):
        n = self.r.randint(0, 5)
        ks = [self.key(self.r.random() < 0.1) for _ in range(n)]
        m = n if self.r.random() < 0.8 else self.r.randint(0, 5)
        vs = [self.anyval(True, k) for _ in range(m)]
        return dict(xs=[self.nat(self.r.choice(["L", "T", "G"]), ks),
                        self.nat(self.r.choice(["L", "T", "G"]), vs)])

    def a_dropall(self, i, k):
        return self.bulk1(i, k, ordered=True)

    def mode(self):
        return self.r.choice(["keys", "values", "items"])

    def a_vlist(self, i, k):
        return dict(s=self.mode(), var=self.r.randrange(2))

    a_vrev = a_vlen = a_vlist

    def a_vcontains(self, i, k):
        r = self.r
        s = self.mode()
        c = self.contents(i)
        if s == "keys":
            return dict(s=s, a=[self.member(i, k)], var=r.randrange(2))
        if c and r.random() < 0.6:
            (a, b) = r.choice(c)
            if b < 0:
                b = self.s.lt[-b - 1]["v"] if k in LAZYK else b
        else:
            (a, b) = (self.key(), self.anyval(False))
        if s == "values":
            return dict(s=s, a=[self.wild(i, k) or b], var=r.randrange(2))
        if r.random() < 0.3:
            b = self.anyval(False)
        b = self.wild(i, k) or b
        return dict(s=s, a=[a, b], var=r.randrange(2))

    def a_vodd(self, i, k):
        c = self.contents(i)
        (a, b) = self.r.choice(c) if c else (self.key(False), self.anyval(False))
        return dict(s="items", a=[a, b], var=self.r.randrange(4))

    def setop(self, i, k):
        r = self.r
        s = r.choice(["keys", "items"])
        c = self.contents(i)
        if s == "items" or not self.full:
            for p in c:
                v = p[1] if p[1] > 0 else self.s.lt[-p[1] - 1]["v"] if k in LAZYK else p[1]
                if not self.u.hashable(v) or p[1] in self.failz:
                    return None
            if not self.full:
                return None
        if s == "keys":
            q = [p[0] for p in c if r.random() < 0.7]
            q = self.dedup(q + [self.key(False) for _ in range(r.choice([0, 0, 1, 2]))])
        else:
            q = []
            for p in c:
                if r.random() < 0.7:
                    v = p[1] if p[1] > 0 else self.s.lt[-p[1] - 1]["v"] if k in LAZYK else p[1]
                    q.append([p[0], v])
            if r.random() < 0.5:
                v = self.anyval(False)
                if self.u.hashable(v):
                    q.append([self.key(False), v])
            seen = {}
            for p in q:
                seen.setdefault((self.ec(p[0]), self.ec(p[1])), p)
            q = list(seen.values())
        return dict(s=s, xs=[self.nat("S", q)], var=r.randrange(2))

    a_vand = a_vor = a_vsub = a_vxor = a_vrsub = setop
    a_veq = a_vle = a_vlt = a_vge = a_vgt = a_vdisj = setop
