"""Runs single operations on real pcollections objects and records events.

A Session is one history: a registry of live objects (ids as in the heap of
spec/Collections.tla), a table of lazy values, and the events so far.  Only the
public interface of the library is used.
"""
import collections
import copy
import json
import gc
import operator
import pickle
import re
import signal
import types
import weakref

import xproc
from universe import ALIEN, ARM, BROKEN, NIL, Boom

KINDS = ["pl", "tl", "ll", "tll", "ps", "ts", "pd", "td", "ld", "tld"]
LISTK = {"pl", "tl", "ll", "tll"}
SETK = {"ps", "ts"}
MAPK = {"pd", "td", "ld", "tld"}
PERS = {"pl", "ll", "ps", "pd", "ld"}
TRANS = {"tl", "tll", "ts", "td", "tld"}
LAZYK = {"ll", "tll", "ld", "tld"}
EMPTY = {"pl": 1, "ll": 2, "ps": 3, "pd": 4, "ld": 5}


WEAK = {"extend", "add", "radd", "mul", "rmul", "iadd", "imul", "sort", "reverse", "update",
        "setall", "copycopy"}


class Hang(BaseException):
    pass


class Arg:
    """An argument of a lazy function."""

    def __init__(self, n):
        self.n = n


def _alarm(sig, frame):
    raise Hang()


class Halt(Exception):
    """The history cannot go on (an operation hangs)."""




class Quit(BaseException):
    """What stops a lazy value's function and is no Exception (like SystemExit)."""


FAILS = [Boom, KeyError, IndexError, AttributeError, StopIteration, Quit, TypeError, ValueError, RuntimeError,
         NotImplementedError]
EXC = [(Hang, "Hang"), (Boom, "Boom"), (StopIteration, "StopIteration"),
       (RecursionError, "RecursionError"), (IndexError, "IndexError"),
       (KeyError, "KeyError"), (ValueError, "ValueError"), (TypeError, "TypeError")]


class Old:
    """A sequence that is iterated by its indices."""

    def __init__(self, v):
        self.v = v

    def __len__(self):
        return len(self.v)

    def __getitem__(self, i):
        return self.v[i]


class Maps(collections.abc.Mapping):
    """A mapping with no more than it must have."""

    def __init__(self, v):
        self.v = v

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        return iter(self.v)

    def __getitem__(self, k):
        return self.v[k]


class Session:
    def __init__(self, pc, uni, emit, hang=8.0):
        self.pc = pc
        self.u = uni
        self.emit = emit
        self.hang = hang
        self.types = {pc.plist: "pl", pc.tlist: "tl", pc.llist: "ll", pc.tllist: "tll",
                      pc.pset: "ps", pc.tset: "ts", pc.pdict: "pd", pc.tdict: "td",
                      pc.ldict: "ld", pc.tldict: "tld"}
        self.cls = {v: k for (k, v) in self.types.items()}
        signal.signal(signal.SIGALRM, _alarm)
        self.threads = False     # several threads make calls (see threads.py)
        self.n = 0
        self.hangs = 0
        self.other = None

    # ------------------------------------------------------------------ state
    def begin(self, lt=(), full=True):
        """Starts a history; lt: rows [v, f, deps] for the lazy values."""
        pc = self.pc
        self.full = full
        self.objs = {}
        self.kind = {}
        self.ids = {}
        self.last = {}
        self.hashes = {}
        self.views = {}
        self.iters = {}
        for (k, i) in EMPTY.items():
            o = self.cls[k].empty
            self.objs[i] = o
            self.kind[i] = k
            self.ids[id(o)] = i
            self.last[i] = [[]]
        self.next_id = 10
        self.calls = [0] * len(lt)
        self.lzseen = [(0, 0)] * len(lt)
        self.lt = []
        for (v, f, d) in lt:
            dd = set(d)
            for j in d:
                dd |= set(self.lt[j - 1]["d"])
            self.lt.append(dict(v=v, f=f, d=sorted(dd), dd=list(d), calls=0, rdy=0))
        # (some with arguments, which must arrive)
        self.lazies = []
        self.lzrefs = []
        for j in range(1, len(lt) + 1):
            (fn, arg) = (self._lazyfn(j), Arg(j))
            self.lazies.append(pc.lazy(fn, *([] if j % 3 == 0 else [arg]), **({"k": arg} if j % 2 else {})))
            self.lzrefs.append([weakref.ref(fn), weakref.ref(arg)])
        fn = arg = None
        self.lzid = {id(z): -(j + 1) for (j, z) in enumerate(self.lazies)}
        self.alias = {}      # copies of values that the library made: id -> (token, object)
        self.emit(dict(op="begin", n=self.n, lt=[
            {k: r[k] for k in ("v", "f", "d", "calls", "rdy")} for r in self.lt]))

    def _lazyfn(self, j):
        def fn(*args, **kw):
            if [u.n for u in args] != ([] if j % 3 == 0 else [j]) or {u: v.n for (u, v) in kw.items()} != (
                    {"k": j} if j % 2 else {}):
                raise AssertionError("arguments of a lazy function")
            self.calls[j - 1] += 1
            row = self.lt[j - 1]
            for d in row["dd"]:
                self.lazies[d - 1]()
            if self.calls[j - 1] <= row["f"]:
                # every kind of failure is one: (Quit is not an Exception)
                raise FAILS[(j + self.calls[j - 1]) % len(FAILS)]("lazy %d" % j)
            return self.obj(row["v"])
        return fn

    def free(self, ids):
        ids = [i for i in ids if i >= 10]
        ids = [i for i in ids if i in self.objs or i in self.iters]
        gone = set(ids)
        for (i, (it, src)) in list(self.iters.items()):
            if src in gone and i not in gone:
                ids.append(i)
        for i in ids:
            if i in self.objs:
                del self.ids[id(self.objs[i])]
                del self.objs[i]
                del self.kind[i]
                self.last.pop(i, None)
                self.views = {k: v for (k, v) in self.views.items() if k[0] != i}
            else:
                del self.iters[i]
        if ids:
            self.emit(dict(op="free", n=self.n, a=ids))

    # ----------------------------------------------------------------- tokens
    def obj(self, tok):
        return self.lazies[-tok - 1] if tok < 0 else self.u.obj(tok)

    def tok(self, o):
        t = self.lzid.get(id(o))
        if t is None:
            t = self.alias[id(o)][0] if id(o) in self.alias else self.u.token(o)
        return t

    def tok_like(self, o):
        t = self.tok(o)
        if t == ALIEN:
            t = self.u.token_like(o)
            if t != ALIEN:
                self.alias[id(o)] = (t, o)
        return t

    # ------------------------------------------------------------ observation
    def observe(self, i, like=False):
        """Every distinct reading of the raw contents of object i."""
        x = self.objs[i]
        k = self.kind[i]
        t = self.tok_like if like else self.tok
        reads = []
        pairs = k in MAPK
        broken = [[BROKEN, BROKEN]] if pairs else [BROKEN]

        def rd(fn):
            try:
                v = fn()
            except BaseException as err:
                if type(err).__name__ == "Abort":       # (conc.py ends the run)
                    raise
                v = broken
            if v not in reads:
                reads.append(v)
        if not self.threads:
            signal.setitimer(signal.ITIMER_REAL, self.hang)
        try:
            if k in ("pl", "tl"):
                rd(lambda: [t(e) for e in x])
                rd(lambda: [t(x[j]) for j in range(len(x))])
                rd(lambda: [t(e) for e in reversed(x)][::-1])
            elif k in ("ll", "tll"):
                rd(lambda: [t(x.getlazy(j)) for j in range(len(x))])
                if k == "ll":
                    rd(lambda: [t(e) for e in x.as_plist()])
            elif k in SETK:
                def rs():
                    s = [t(e) for e in x]
                    return s if len(x) == len(s) else broken
                rd(rs)

                def rm():
                    # the elements that the set finds (a NaN need not be found)
                    s = list(x)
                    return [t(e) for e in s if len(s) > 64 or e in x or e != e]
                rd(rm)
            elif k in ("pd", "td"):
                rd(lambda: [[t(a), t(b)] for (a, b) in x.items()])
                rd(lambda: [[t(a), t(x[a])] for a in x])
                rd(lambda: [[t(a), t(b)] for (a, b) in x.items()] if len(x) == len(x.keys()) else broken)
            elif k in ("ld", "tld"):
                rd(lambda: [[t(a), t(x.getlazy(a))] for a in x])
                if k == "ld":
                    rd(lambda: [[t(a), t(b)] for (a, b) in x.as_pdict().items()])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return reads

    # ------------------------------------------------------------------- args
    def arg(self, x):
        """The Python object of an argument record, and a check that it is intact."""
        if x["id"]:
            return self.objs[x["id"]], None
        k, c = x["k"], x["c"]
        O = self.obj
        if k == "L":
            v = [O(t) for t in c]
            w = list(v)
            return v, lambda: len(v) == len(w) and all(a is b for (a, b) in zip(v, w))
        if k == "T":
            v = tuple(O(t) for t in c)
            n = (3 * len(c) + sum(t for t in c if type(t) is int)) % 5
            return (collections.deque(v) if n == 0 else Old(v) if n == 1 else v), None
        if k == "G":
            return (O(t) for t in c), None
        if k == "I":
            return iter([O(t) for t in c]), None
        if k == "X":
            def gen():
                for t in c:
                    yield O(t)
                raise Boom()
            return gen(), None
        if k in ("S", "F", "V") and c and isinstance(c[0], list):
            v = {(O(a), O(b)) for (a, b) in c}
            return v, None
        if k == "S":
            v = {O(t) for t in c}
            n = len(v)
            return v, lambda: len(v) == n and all(O(t) in v for t in c)
        if k == "F":
            return frozenset(O(t) for t in c), None
        if k == "V":
            return {O(t): None for t in c}.keys(), None
        if k == "D":
            v = {O(a): O(b) for (a, b) in c}
            w = list(v.items())
            return v, lambda: [tuple(map(id, p)) for p in v.items()] == [tuple(map(id, p)) for p in w]
        if k == "MP":
            v = {O(a): O(b) for (a, b) in c}
            n = (len(c) + sum(a + b for (a, b) in c)) % 4
            return (collections.ChainMap({}, v) if n == 0 else collections.UserDict(v) if n == 1
                    else Maps(v) if n == 2 else types.MappingProxyType(v)), None
        if k == "P":
            v = [(O(a), O(b)) for (a, b) in c]
            n = len(v)
            return v, lambda: len(v) == n
        if k == "PL":
            return [[O(a), O(b)] for (a, b) in c], None
        if k == "GP":
            return ((O(a), O(b)) for (a, b) in c), None
        if k == "XP":
            def genp():
                for (a, b) in c:
                    yield (O(a), O(b))
                raise Boom()
            return genp(), None
        if k == "PB":
            return [(1, 2, 3)], None
        if k == "BI":
            return [1, 2], None
        if k == "O":
            return 5, None
        raise AssertionError(k)

    # ---------------------------------------------------------------- results
    def _res(self, k, v=(), id=0, s=""):
        return dict(k=k, v=list(v), id=id, s=s)

    def _objid(self, o, nw):
        i = self.ids.get(id(o))
        if i is None:
            i = self.next_id
            self.next_id += 1
            self.objs[i] = o
            self.kind[i] = self.types[type(o)]
            self.ids[id(o)] = i
            nw.append(dict(id=i, k=self.kind[i]))
        return i

    def _other(self, v):
        return self._res("other", s=type(v).__name__)

    def _other_conv(self, v, nw):
        return self._other(v)

    def r_obj(self, v, nw):
        if type(v) not in self.types:
            return self._other(v)
        return self._res("obj", id=self._objid(v, nw))

    def r_none(self, v, nw):
        return self._res("none") if v is None else self._other(v)

    def r_int(self, v, nw):
        return self._res("int", [v]) if type(v) is int else self._other(v)

    def r_bool(self, v, nw):
        return self._res("bool", [int(v)]) if type(v) is bool else self._other(v)

    def r_flags(self, v, nw):
        return self._res("bools", v)

    def r_bools(self, v, nw):
        if all(type(b) is bool for b in v):
            return self._res("bools", [int(b) for b in v])
        return self._other(v)

    def r_tok(self, v, nw):
        return self._res("tok", [self.tok(v)])

    def r_toks(self, v, nw):
        return self._res("toks", [self.tok(e) for e in v])

    def r_pairs(self, v, nw):
        if all(type(e) is tuple and len(e) == 2 for e in v):
            return self._res("pairs", [[self.tok(a), self.tok(b)] for (a, b) in v])
        return self._other(v)

    def r_pair(self, v, nw):
        if type(v) is tuple and len(v) == 2:
            return self._res("pair", [self.tok(v[0]), self.tok(v[1])])
        return self._other(v)

    def r_tokobj(self, v, nw):
        if type(v) is tuple and len(v) == 2 and type(v[1]) in self.types:
            return self._res("tokobj", [self.tok(v[0])], id=self._objid(v[1], nw))
        return self._other(v)

    def r_pairobj(self, v, nw):
        if (type(v) is tuple and len(v) == 2 and type(v[0]) is tuple
                and len(v[0]) == 2 and type(v[1]) in self.types):
            return self._res("pairobj", [self.tok(v[0][0]), self.tok(v[0][1])],
                             id=self._objid(v[1], nw))
        return self._other(v)

    def r_str(self, v, nw):
        if type(v) is not str:
            return self._other(v)
        v = re.sub(r"lazy\(<\d+>: (\w+)\)", r"lazy#\1", v)
        return self._res("str", s=v)

    def r_hash(self, v, nw):
        if type(v) is not int:
            return self._other(v)
        return self._res("hash", [self.hashes.setdefault(v, len(self.hashes) + 1)])

    # ------------------------------------------------------------------- call
    def call(self, op, r=0, a=(), xs=(), kw=(), s="", var=0, arm=0, observe=None):
        """Runs one operation and emits its event.  Returns the event."""
        a = list(a)
        e = dict(op=op, n=self.n, r=r, a=a, xs=[dict(x) for x in xs],
                 kw=[list(p) for p in kw], s=s, var=var, fi=0)
        nw = []
        like = False
        checks = []
        x = self.objs.get(r)
        k = self.kind.get(r)
        args = []
        for y in xs:
            (v, chk) = self.arg(y)
            args.append(v)
            if chk:
                checks.append(chk)
        if not self.threads:
            signal.setitimer(signal.ITIMER_REAL, self.hang)
        hung = False
        try:
            try:
                ARM.fired = False
                ARM.n = arm
                (v, conv) = self.run(op, r, x, k, a, args, kw, s, var, nw)
            finally:
                ARM.n = 0
                signal.setitimer(signal.ITIMER_REAL, 0)
                e["arm"] = arm
                e["fi"] = 1 if ARM.fired else 0
            res = conv(v, nw)
        except BaseException as err:
            signal.setitimer(signal.ITIMER_REAL, 0)
            if isinstance(err, KeyboardInterrupt) or type(err).__name__ == "Abort":
                raise
            name = type(err).__name__
            if isinstance(err, Quit):
                name = "LazyError"
            elif any(c.__name__ == "LazyError" for c in type(err).__mro__):
                name = "LazyError"
                try:
                    str(err), repr(err)
                    if not isinstance(err, RuntimeError):
                        name = "no RuntimeError"
                except Exception:
                    name = "LazyError without a text"
            else:
                for (c, nm) in EXC:
                    if isinstance(err, c):
                        name = nm
                        break
                else:
                    if isinstance(err, RuntimeError):
                        name = "RuntimeError"
            hung = name == "Hang"
            res = self._res("exc", s=name)
            del err
        like = op in ("pickle", "deepcopy")
        # the order of a set's elements, and which of two equal keys a dict
        # holds, only an observation can tell
        order = (s if op == "con" else k) in LISTK and any(
            y["k"] in ("S", "F") or self.kind.get(y["id"]) in SETK | MAPK for y in xs)
        e["res"] = res
        e["nw"] = nw
        e["ac"] = 0 if all(c() for c in checks) else 1
        lzo = []
        for (j, z) in enumerate(self.lazies):
            st = (self.calls[j], 1 if z.is_ready() else 0)
            if st != self.lzseen[j]:
                self.lzseen[j] = st
                lzo.append([j + 1, st[0], st[1]])
        e["lzo"] = lzo
        # some operations may store the results of lazy values: look which
        weak = op in WEAK and self.lazies and k not in SETK
        full = self.full if observe is None else observe
        o = []
        newids = {d["id"] for d in nw}
        exc_edit = res["k"] == "exc" and k in TRANS
        if self.threads:
            self.quiet(True)
        if not hung:
            for i in list(self.objs):
                isnew = i in newids
                if (full or (isnew and (self.full or like or order or weak))
                        or (i == r and (exc_edit or ((weak or order) and k in TRANS)))
                        or (self.threads and (isnew or i == r))):
                    p = self.observe(i, like and isnew)
                    if isnew or i == r or p != self.last.get(i):
                        o.append(dict(id=i, p=p))
                    self.last[i] = p
        if self.threads:
            self.quiet(False)
        e["o"] = o
        e["full"] = 1 if full else 0
        self.emit(e)
        self.n += 1
        if hung:
            self.hangs += 1
            raise Halt()
        return e

    def view(self, r, x, mode, var):
        if var == 1 and (r, mode) in self.views:
            return self.views[(r, mode)]
        v = getattr(x, mode)()
        self.views[(r, mode)] = v
        return v

    def run(self, op, r, x, k, a, args, kw, s, var, nw):
        """Performs the operation: (value, converter of the value)."""
        pc = self.pc
        O = self.obj
        P = k in PERS
        rm = self.r_obj if P else self.r_none      # result of an edit
        # ---- every collection
        if op == "con":
            kws = {O(kk): O(v) for (kk, v) in kw}
            return self.cls[s](*args, **kws), self.r_obj
        if op == "lzcall":
            return O(a[0])(), self.r_tok
        if op == "lzheld":
            gc.collect()
            return any(w() is not None for w in self.lzrefs[-a[0] - 1]), self.r_bool
        if op == "lzready":
            return O(a[0]).is_ready(), self.r_bool
        if op == "unlazy":
            return pc.unlazy(O(a[0])), self.r_tok
        if op == "lznew":
            return pc.lazy(*[[], [5], [None, 1], ["a"]][var]), self._other_conv
        if op == "badindex":
            return self.badindex(x, P, s, var), self._other_conv
        if op == "observe":
            return None, self.r_none
        if op == "len":
            return len(x), self.r_int
        if op == "bool":
            return bool(x), self.r_bool
        if op == "eq":
            y = args[0]
            return (x == y, y == x, x != y, y != x), self.r_bools
        if op == "cmp":
            f = getattr(operator, s)
            return (f(x, args[0]) if a[0] == 0 else f(args[0], x)), self.r_bool
        if op == "hash":
            return hash(x), self.r_hash
        if op == "dictkey":
            y = args[0]
            return ({x: 1}.get(y) == 1) and (y in {x}), self.r_bool
        if op == "str":
            return str(x), self.r_str
        if op == "repr":
            return repr(x), self.r_str
        if op == "json":
            return x.__json__(), self.r_str
        if op == "xpickle":
            if self.other is None:
                self.other = xproc.Elsewhere()
            native = list(x.items()) if k in MAPK else list(x)
            return self.other.ask(x, native, P, a[0]), self.r_flags
        if op == "pickle":
            return pickle.loads(pickle.dumps(x, a[0])), self.r_obj
        if op == "copycopy":
            return copy.copy(x), self.r_obj
        if op == "deepcopy":
            return copy.deepcopy(x), self.r_obj
        if op == "copy":
            return x.copy(), self.r_obj
        if op == "transient":
            return x.transient(), self.r_obj
        if op == "persistent":
            return x.persistent(), self.r_obj
        if op == "clear":
            return x.clear(), rm
        if op == "misuse":
            return self.misuse(x, s, a), self.r_none
        if op == "list":
            if var == 1:
                return [*x], self.r_toks
            if var == 2:
                return tuple(x), self.r_toks
            if var == 3:
                return [e for e in x], self.r_toks
            return list(x), self.r_toks
        if op == "contains":
            return O(a[0]) in x, self.r_bool
        if op in ("is_lazy", "is_ready"):
            i = a[0] if k in LISTK else O(a[0])
            return getattr(x, op)(i), self.r_bool
        if op == "getlazy":
            if k in LISTK:
                return x.getlazy(a[0]), self.r_tok
            return x.getlazy(*[O(t) for t in a]), self.r_tok
        if op == "ready_all":
            return x.ready_all(), self.r_obj
        if op == "hold":
            return getattr(x, {"ll": "as_plist", "ld": "as_pdict", "tld": "as_tdict"}[k])(), self.r_obj
        if op == "holdlazy":
            return pc.holdlazy(x, *([True] if var else [])), self.r_obj
        if op == "iter":
            it = self.makeiter(x, s)
            try:
                v = next(it)
            except StopIteration:
                return None, lambda v, nw: self._res("stop")
            i = self.next_id
            self.next_id += 1
            self.iters[i] = (it, r)
            nw.append(dict(id=i, k="it"))
            return v, self.r_pair if self.is_item(k, s) else self.r_tok
        if op == "next":
            it, src = self.iters[r]
            try:
                v = next(it)
            except StopIteration:
                return None, lambda v, nw: self._res("stop")
            kk = self.kind[src]
            return v, self.r_pair if self.is_item(kk, s) else self.r_tok
        if k in LISTK:
            return self.run_list(op, x, P, rm, a, args, s)
        if k in SETK:
            return self.run_set(op, x, P, rm, a, args)
        return self.run_map(op, r, x, P, rm, a, args, kw, s, var)

    def is_item(self, k, s):
        return k in MAPK and s in ("items", "ritems")

    def makeiter(self, x, s):
        if s == "fwd":
            return iter(x)
        if s == "rev":
            return reversed(x)
        if s[0] == "r":
            return reversed(getattr(x, s[1:])())
        return iter(getattr(x, s)())

    def misuse(self, x, s, a):
        names = ["foo", "empty"]
        for c in type(x).__mro__:
            sl = c.__dict__.get("__slots__", ())
            names += [sl] if isinstance(sl, str) else list(sl)
        names = [n for n in names if not n.startswith("__")]
        nm = names[a[0] % len(names)]
        if s == "setattr":
            setattr(x, nm, 1)
        elif s == "delattr":
            delattr(x, nm)
        elif s == "setitem":
            x[a[0] if a[0] < 3 else self.obj(1)] = self.obj(1)
        elif s == "delitem":
            del x[a[0] if a[0] < 3 else self.obj(1)]
        elif s == "setslice":
            x[0:1] = [1]
        elif s == "delslice":
            del x[0:1]

    def badindex(self, x, P, s, var):
        """Uses something that is no index as an index."""
        bad = ["a", None, (0, 1), []][var]
        if s in ("mul", "rmul", "imul"):
            bad = ["a", None, 1.5, []][var]
        one = self.obj(1)
        if s == "get":
            return x[bad]
        if s in ("set", "insert"):
            if s == "set" and not P:
                x[bad] = one
                return None
            return getattr(x, s)(bad, one)
        if s == "delete" and not P:
            del x[bad]
            return None
        if s in ("delete", "drop", "pop"):
            return getattr(x, s)(bad)
        if s == "index":
            return x.index(one, bad)
        if s == "mul":
            return x * bad
        if s == "rmul":
            return bad * x
        return operator.imul(x, bad)

    def boomkey(o):
        raise Boom()

    KEYS = {"boom": boomkey, "none": None, "neg": operator.neg, "const": lambda o: 0}

    def run_list(self, op, x, P, rm, a, args, s):
        O = self.obj
        if op == "get":
            return x[a[0]], self.r_tok
        if op == "slice":
            sl = slice(*[None if i == NIL else i for i in a])
            return x[sl], self.r_obj
        if op == "rev":
            return list(reversed(x)), self.r_toks
        if op == "index":
            return x.index(O(a[0]), *[i for i in a[1:] if i != NIL]), self.r_int
        if op == "count":
            return x.count(O(a[0])), self.r_int
        if op == "set":
            if P:
                return x.set(a[0], O(a[1])), rm
            x[a[0]] = O(a[1])
            return None, rm
        if op == "delete":
            if P:
                return x.delete(*a), rm
            del x[a[0]]
            return None, rm
        if op == "drop":
            return x.drop(*a), rm
        if op == "pop":
            return x.pop(*a), self.r_tokobj if P else self.r_tok
        if op == "insert":
            return x.insert(a[0], O(a[1])), rm
        if op in ("append", "prepend", "remove"):
            return getattr(x, op)(O(a[0])), rm
        if op == "extend":
            return x.extend(args[0]), rm
        if op == "sort":
            kw = {}
            if s != "none":
                kw["key"] = self.KEYS[s]
            if a[0]:
                kw["reverse"] = True
            return x.sort(**kw), rm
        if op == "reverse":
            return x.reverse(), rm
        if op == "add":
            return x + args[0], self.r_obj
        if op == "radd":
            return args[0] + x, self.r_obj
        if op == "mul":
            return x * a[0], self.r_obj
        if op == "rmul":
            return a[0] * x, self.r_obj
        if op == "iadd":
            return operator.iadd(x, args[0]), self.r_obj
        if op == "imul":
            return operator.imul(x, a[0]), self.r_obj
        raise AssertionError(op)

    BIN = {"or": operator.or_, "and": operator.and_, "sub": operator.sub, "xor": operator.xor}
    NAMES = {"symdiff": "symmetric_difference", "symdiff_update": "symmetric_difference_update"}

    def run_set(self, op, x, P, rm, a, args):
        O = self.obj
        if op in ("add", "discard", "remove"):
            return getattr(x, op)(O(a[0])), rm
        if op == "pop":
            return x.pop(), self.r_tokobj if P else self.r_tok
        if op in ("addall", "discardall", "removeall"):
            return getattr(x, op)(args[0]), rm
        if op in ("union", "intersection", "difference", "symdiff"):
            return getattr(x, self.NAMES.get(op, op))(*args), self.r_obj
        if op in ("update", "intersection_update", "difference_update", "symdiff_update"):
            return getattr(x, self.NAMES.get(op, op))(*args), self.r_none
        if op in self.BIN:
            return self.BIN[op](x, args[0]), self.r_obj
        if op[0] == "r" and op[1:] in self.BIN:
            return self.BIN[op[1:]](args[0], x), self.r_obj
        if op in ("ior", "iand", "isub", "ixor"):
            return getattr(operator, op)(x, args[0]), self.r_obj
        if op in ("isdisjoint", "issubset", "issuperset"):
            return getattr(x, op)(args[0]), self.r_bool
        raise AssertionError(op)

    def run_map(self, op, r, x, P, rm, a, args, kw, s, var):
        O = self.obj
        if op == "getitem":
            return x[O(a[0])], self.r_tok
        if op == "get":
            return x.get(*[O(t) for t in a]), self.r_tok
        if op == "set":
            if P:
                return x.set(O(a[0]), O(a[1])), rm
            x[O(a[0])] = O(a[1])
            return None, rm
        if op == "drop":
            return x.drop(O(a[0])), rm
        if op == "delete":
            if P:
                return x.delete(O(a[0])), rm
            del x[O(a[0])]
            return None, rm
        if op == "pop":
            return x.pop(*[O(t) for t in a]), self.r_tokobj if P else self.r_tok
        if op == "popitem":
            return x.popitem(), self.r_pairobj if P else self.r_pair
        if op == "setdefault":
            return x.setdefault(*[O(t) for t in a]), self.r_obj if P else self.r_tok
        if op == "update":
            kws = {O(kk): O(v) for (kk, v) in kw}
            return x.update(*args, **kws), rm
        if op == "setall":
            return x.setall(args[0], args[1]), rm
        if op in ("dropall", "deleteall"):
            return getattr(x, op)(args[0]), rm
        if op == "rev":
            return list(reversed(x)), self.r_toks
        if op == "vlist":
            return list(self.view(r, x, s, var)), self.r_pairs if s == "items" else self.r_toks
        if op == "vrev":
            return list(reversed(self.view(r, x, s, var))), self.r_pairs if s == "items" else self.r_toks
        if op == "vlen":
            return len(self.view(r, x, s, var)), self.r_int
        if op == "vcontains":
            o = (O(a[0]), O(a[1])) if s == "items" else O(a[0])
            return o in self.view(r, x, s, var), self.r_bool
        if op == "vrepr":
            t = (repr if var == 0 else str)(self.view(r, x, s, 0))
            # (after the name of the view's type, which is not looked at)
            return t[t.index("(") + 1:-1], self.r_str
        if op == "vodd":
            (p, q) = (O(a[0]), O(a[1]))
            o = [p, q] if var == 0 else (p, q, q) if var == 1 else (p,) if var == 2 else {p: q}
            return o in self.view(r, x, s, 0), self.r_bool
        if op in ("vand", "vor", "vsub", "vxor", "vrsub"):
            v = self.view(r, x, s, var)
            q = (args[0] - v) if op == "vrsub" else self.BIN[op[1:]](v, args[0])
            if not isinstance(q, (set, frozenset)):
                return q, lambda v, nw: self._other(v)
            return q, self.r_pairs if s == "items" else self.r_toks
        if op in ("veq", "vle", "vlt", "vge", "vgt"):
            return getattr(operator, op[1:])(self.view(r, x, s, var), args[0]), self.r_bool
        if op == "vdisj":
            return self.view(r, x, s, var).isdisjoint(args[0]), self.r_bool
        raise AssertionError(op)
