"""Scenes: histories that TLC generates from the representation models.

A model (spec/ListRep.tla, ..) visits every state of a small representation and
prints a scene for each: the calls that reach it (pre, suf), the calls to try
there (menu) and what to do afterwards (tail).  Here scenes become histories
for driver.py: persistent objects take the whole menu one call after the
other; for transients suf is repeated before each call.  A scene is used for
each of the kinds that share a representation, with the values of the scene
replaced by values of the library's world (colliding keys, lazy values, ..).
"""
import json
import os
import random
import threading

import check as C
from universe import Universe

PERS = {"pl": "p", "ll": "p", "ps": "p", "pd": "p", "ld": "p"}
KIND_T = {"pl": "tl", "ll": "tll", "ps": "ts", "pd": "td", "ld": "tld"}
STORE = {"set", "append", "prepend", "insert", "extend", "add", "radd", "iadd"}
NOT_LAZY_LIST = {"json"}


def universe_file(work):
    path = os.path.join(work, "scenes.universe")
    if not os.path.exists(path):
        with open("%s.%d" % (path, threading.get_ident()), "w") as f:
            json.dump(Universe(None).table(), f)
        os.replace(f.name, path)
    return path


def tokens(names):
    u = Universe(None)
    return [u.tok_named[n] for n in names]


def run_model(module, cfg, consts, work, timeout=600, heap="2g"):
    """Runs TLC on a model with the given constants: (scenes, states, transitions)."""
    path = os.path.join(work, "%s_%d.cfg" % (module, abs(hash((cfg, tuple(sorted(consts.items()))))) % 10 ** 9))
    with open(os.path.join(C.SPEC, cfg)) as f:
        lines = f.read().splitlines()
    out = []
    for ln in lines:
        if ln.startswith("CONSTANTS"):
            w = ln.split()[1:]
            cur = {w[i]: w[i + 2] for i in range(0, len(w), 3)}
            cur.update({k: str(v) for (k, v) in consts.items()})
            ln = "CONSTANTS " + " ".join("%s = %s" % p for p in cur.items())
        out.append(ln)
    with open(path, "w") as f:
        f.write("\n".join(out) + "\n")
    (rc, o) = C.tlc(module + ".tla", path, dict(PC_UNIVERSE=universe_file(work)), work, timeout, heap=heap)
    if rc != 0:
        raise C.Machinery("%s: TLC exit %s\n%s" % (module, rc, "\n".join(
            x[:400] for x in o.splitlines() if "SCENE" not in x)[-1500:]))
    (g, d) = C.states_of(o)
    return C.printed(o, "SCENE"), d, g


def copy_call(c):
    return {k: v for (k, v) in c.items() if v not in ([], "", 0) or k in ("op", "a")}


class Lists:
    """List scenes for pl/tl, or for ll/tll with lazy items."""

    def __init__(self, base, fail=False):
        self.base = base
        self.lazy = base == "ll"
        # item 1000+i is lazy for even i
        self.lt = [[1000 + i, 1 if fail and i == 4 else 0, [1] if i == 2 else []]
                   for i in range(8)] if self.lazy else []

    def menu(self, sc, part):
        return sc[part]

    def tok(self, t):
        if self.lazy and 1000 <= t < 1008 and t % 2 == 0:
            return -(t - 999)
        return t

    def __call__(self, c):
        c = copy_call(c)
        op = c["op"]
        if op == "con" and c["s"] == "pl":
            c["s"] = self.base
        if self.lazy:
            if op in ("eq",):
                return c
            if op in ("con", "extend", "add", "radd", "iadd") and c.get("xs"):
                c["xs"] = [dict(x, c=[self.tok(t) for t in x["c"]]) for x in c["xs"]]
            if op in ("append", "prepend"):
                c["a"] = [self.tok(c["a"][0])]
            if op in ("set", "insert"):
                c["a"] = [c["a"][0], self.tok(c["a"][1])]
        return c

class Chains:
    """Chain scenes for the kinds of dicts and sets.

    keys: the tokens of the model's keys 1.., the last one the key that is
    absent; twins: equal copies of the first two."""

    def __init__(self, base, keys, twins, fail=False):
        self.base = base
        self.sets = base == "ps"
        (k, w) = (tokens(keys), tokens(twins))
        self.map = {i + 1: t for (i, t) in enumerate(k)}
        self.map.update({101 + i: t for (i, t) in enumerate(w)})
        self.map[1000000] = tokens(["l"])[0]
        self.lazy = base == "ld"
        # value 1000+i is lazy for even i
        self.lt = [[1000 + i, 1 if fail and i == 4 else 0, [1] if i == 2 else []]
                   for i in range(10)] if self.lazy else []

    def menu(self, sc, part):
        return sc[{"edits": "sedits", "reads": "sreads", "tail": "stail"}.get(part, part)
                  if self.sets else part]

    def tok(self, t, store):
        if store and self.lazy and 1000 <= t < 1010 and t % 2 == 0:
            return -(t - 999)
        return self.map.get(t, t)

    def __call__(self, c):
        c = copy_call(c)
        op = c["op"]
        if op in ("pickle", "xpickle", "cmp"):
            return c
        st = op in ("set", "update", "setall", "con")
        if op == "con":
            c["s"] = self.base
            if self.sets:
                c["xs"] = [dict(x, k="L", c=[p[0] for p in x["c"]]) for x in c["xs"]]
        if self.sets and op in ("set", "delete"):
            c["op"] = "add" if op == "set" else "discard"
            c["a"] = c["a"][:1]
        if c.get("a"):
            c["a"] = [self.tok(t, st) for t in c["a"]]
        if c.get("xs"):
            c["xs"] = [dict(x, c=[[self.tok(t, st) for t in p] if isinstance(p, list) else self.tok(p, st)
                                  for p in x["c"]]) for x in c["xs"]]
        return c


class Direct:
    """Scenes of MCColl: only the keys 1.. and the shared start are replaced."""

    def __init__(self, base, keys=None):
        self.base = base
        self.lists = base in ("pl", "ll")
        self.map = {i + 1: t for (i, t) in enumerate(tokens(keys or []))}
        self.lt = [[1000, 0, []], [1001, 0, [1]]] if base in ("ll", "ld") else []

    def menu(self, sc, part):
        return sc.get(part, [])

    def tok(self, t):
        return self.map.get(t, t)

    def __call__(self, c):
        c = copy_call(c)
        if not self.map or self.lists:
            return c
        if c.get("a"):
            c["a"] = [self.tok(t) for t in c["a"]]
        if c.get("xs"):
            c["xs"] = [dict(x, c=[[self.tok(t) for t in p] if isinstance(p, list) else self.tok(p)
                                  for p in x["c"]]) for x in c["xs"]]
        return c


class Colliding(Direct):
    """The pairs of MCOne ("cmp") with values of which many have equal hashes."""

    def __init__(self, base):
        Direct.__init__(self, base)
        self.lists = False
        self.map = dict(zip([1, 2, 3, 4, 5, 9], tokens([0, 1, "B0", "B1", "B1b", "t"])))

    def __call__(self, c):
        # (the argument of cmp is a flag, that of delete an index)
        return dict(Direct.__call__(self, c), a=c["a"]) if c["op"] in ("cmp", "delete") else Direct.__call__(self, c)


KMAP = (["K7_1", "K7_2", "K7_3", "K3_1", "K7_4"], ["k7_1", "k7_2"])
IMAP = ([1, "B1", "B1b", 5, "B1c"], ["t", "B1"])


def histories(scenes, tr, rng, frac, chunk=70):
    """Histories for the driver.  frac: the share of each menu that is used."""
    res = []

    def some(menu):
        menu = [tr(c) for c in menu]
        menu = [c for c in menu if c is not None]
        if frac < 1:
            return rng.sample(menu, min(len(menu), max(3, int(len(menu) * frac + rng.random()))))
        rng.shuffle(menu)
        return menu
    for sc in scenes:
        if "line" in sc:
            if frac >= 1 or rng.random() < frac:
                lt = [[x["v"], x["f"], x["d"]] for x in sc["lt"]] if "lt" in sc else tr.lt
                res.append(dict(lt=lt, full=True, scene=1, calls=[tr(c) for c in sc["line"]]))
            continue
        (reads, edits) = (some(tr.menu(sc, "reads")), some(tr.menu(sc, "edits")))
        (pre, suf, tail) = ([tr(c) for c in tr.menu(sc, k)] for k in ("pre", "suf", "tail"))
        if not suf:         # a persistent object: nothing that is tried changes it
            reads += edits
            edits = []
            rng.shuffle(reads)
        for i in range(0, len(reads), chunk):
            res.append(dict(lt=tr.lt, full=True, scene=1, calls=pre + suf + reads[i:i + chunk]))
        step = max(6, chunk // (len(suf) + len(tail) + 1))
        for i in range(0, len(edits), step):
            calls = list(pre)
            for m in edits[i:i + step]:
                calls += suf + [m] + tail
            res.append(dict(lt=tr.lt, full=True, scene=1, calls=calls))
    return res


def split(hists, parts):
    """The histories in parts of about the same number of calls."""
    out = [[] for _ in range(parts)]
    load = [0] * parts
    for h in sorted(hists, key=lambda h: -len(h["calls"])):
        j = load.index(min(load))
        out[j].append(h)
        load[j] += len(h["calls"]) + 1
    return [p for p in out if p]


def scene_jobs(prop, name, module, cfg, consts, trs, frac, seed, work, parts=8):
    """A job that runs a model and leaves the replay of its scenes as more jobs."""
    def first():
        res = C.Result()
        (scenes, d, g) = run_model(module, cfg, consts, work)
        (res.mc_states, res.mc_transitions) = (d, g)
        rng = random.Random("%s/%s/%d" % (prop, name, seed))
        hists = []
        for tr in trs:
            hists += histories(scenes, tr, rng, frac)
        res.notes["scenes"] = len(scenes)
        res.more = [replayer(prop, "%s-%d" % (name, i), p, work) for (i, p) in enumerate(split(hists, parts))]
        return res
    return first


def replayer(prop, name, hists, work):
    return lambda: C.replay_job(prop, name, hists, work)


# ------------------------------------------------------------- large inputs
def huge(kind, n, rng):
    """A history on one collection of n items, made from a one-shot or native
    source or from another collection, edited at a few places and read whole."""
    lists = kind in ("pl", "tl", "ll", "tll")
    sets = kind in ("ps", "ts")
    maps = not lists and not sets
    off = 1000 + rng.randrange(100)
    items = list(range(off, off + n))
    (L, new) = (LABEL, 2 * [0])
    k0 = rng.choice(["G", "GP", "D"] if maps else ["G", "L", "I", "G"])
    if maps:
        k0 = rng.choice(["GP", "D", "P"])
    src = [[t, t + 1] for t in items] if maps else items
    lazy = {"ll": "pl", "ld": "pd"}
    calls = [dict(op="con", s=kind, a=[], xs=[dict(id=0, k=k0, c=src)])]
    calls[0].update({"as": L + 1, "full": 1})
    read = dict(op="vlist", r=L + 1, a=[], s="items") if maps else dict(op="list", r=L + 1, a=[])

    def c(op, *a, **k):
        calls.append(dict(op=op, r=L + 1, a=list(a), **k))

    def again(**k):
        calls.append(dict(read, **k))
    (mid, x) = (items[rng.randrange(n)], off + n + 5)
    c("len")
    again()
    pers = kind in ("pl", "ll", "ps", "pd", "ld")
    turn = {"as": L + 1} if pers else {}
    for step in range(3):
        j = rng.randrange(n // 2, n - 10)
        if lists:
            c(*rng.choice([("append", x), ("prepend", x), ("set", j, x), ("set", -1, x), ("delete", -1),
                           ("delete", 0), ("insert", j, x), ("pop", -1)]), **turn)
            c("get", j)
            c("get", -2)
            c("index", items[j])
        elif sets:
            c(*rng.choice([("add", x), ("discard", items[j]), ("remove", items[j])]), **turn)
            c("contains", items[j])
            c("contains", x)
        else:
            c(*rng.choice([("set", x, x), ("set", items[j], x), ("delete", items[j])]), **turn)
            c("get", items[j])
            c("contains", items[j + 1])
        x += 1
    c("len")
    again()
    other = {"pl": "tl", "tl": "pl", "ll": "tll", "tll": "ll", "ps": "ts", "ts": "ps", "pd": "td", "td": "pd",
             "ld": "tld", "tld": "ld"}[kind]
    calls.append(dict(op="con", s=other, a=[], xs=[dict(id=L + 1, k="", c=[])]))
    calls[-1].update({"as": L + 2, "full": 1})
    again(r=L + 2)
    c("transient" if pers else "persistent", **{"as": L + 3, "full": 1})
    again(r=L + 3)
    if not pers:
        if lists:
            c("extend", xs=[dict(id=0, k="G", c=items[:40])])
        c("len")
    return dict(lt=[], full=False, scene=1, calls=calls)


def wide(kind, n, rng):
    """A history on a family of collections of about n items that share most of
    what they hold: made by edits, snapshots, copies and conversions from one
    another, compared, hashed, copied, iterated while others change."""
    lists = kind in ("pl", "tl", "ll", "tll")
    sets = kind in ("ps", "ts")
    maps = not lists and not sets
    off = 1000 + rng.randrange(2000)
    items = list(range(off, off + n))
    src = [[t, t + 1] for t in items] if maps else items
    calls = []
    (pk, tk) = {"pl": ("pl", "tl"), "tl": ("pl", "tl"), "ll": ("ll", "tll"), "tll": ("ll", "tll"), "ps": ("ps", "ts"),
                "ts": ("ps", "ts"), "pd": ("pd", "td"), "td": ("pd", "td"), "ld": ("ld", "tld"),
                "tld": ("ld", "tld")}[kind]
    x = [off + n + 5]

    def c(op, r, *a, **k):
        calls.append(dict(op=op, r=LABEL + r if r else 0, a=list(a), **k))

    def into(lab):
        return {"as": LABEL + lab, "full": 0}

    def read(*labs):
        for j in labs:
            if maps:
                c("vlist", j, s="items")
            else:
                c("list", j)

    def edit(r, pers, lab=0, back=False):
        """One edit; returns the call that undoes it."""
        j = rng.randrange(n // 2, n - 6)
        x[0] += 1
        k = into(lab) if pers else {}
        if lists:
            (m, u) = rng.choice([(("append", x[0]), ("delete", -1)), (("prepend", x[0]), ("delete", 0)),
                                 (("insert", j, x[0]), ("delete", j))] + ([] if back else [
                                     (("set", j, x[0]), None), (("delete", -1), None), (("delete", 0), None),
                                     (("delete", j), None), (("delete", 3), None)]))
        elif sets:
            (m, u) = rng.choice([(("add", x[0]), ("discard", x[0]))] + ([] if back else [
                (("discard", items[j]), None), (("remove", items[j]), None)]))
        else:
            (m, u) = rng.choice([(("set", x[0], x[0]), ("delete", x[0]))] + ([] if back else [
                (("set", items[j], x[0]), None), (("delete", items[j]), None)]))
        c(*m[:1], r, *m[1:], **k)
        return u
    # a persistent object, another from it, and an edit taken back
    nat = "G" if lists else rng.choice("GL") if sets else "GP"
    c("con", 0, s=pk, xs=[dict(id=0, k=nat, c=src)], **into(1))
    edit(1, True, 2)
    edit(2, True, 3)
    u = edit(1, True, 4, True)
    c(u[0], 4, *u[1:], **into(4))
    read(1, 2, 3, 4)
    # transients, snapshots, copies
    c("transient", 1, **into(5))
    edit(5, False)
    c("persistent", 5, **into(6))
    c("copy", 5, **into(7))
    edit(5, False)
    edit(7, False)
    c("con", 0, s=tk, xs=[dict(id=LABEL + 5, k="", c=[])], **into(8))
    edit(8, False)
    c("persistent", 5, **into(9))
    edit(5, False)
    read(1, 5, 6, 7, 8, 9)
    # iterators of an older state (items of the first edit's result)
    if not sets:
        how = "items" if maps else "fwd"
        c("iter", 6, s=how, **into(20))
        c("next", 20, s=how)
        edit(6, True, 10)
        c("next", 20, s=how)
    # comparisons
    for (i, j) in ((1, 4), (4, 1), (1, 2), (9, 5), (1, 9)):
        c("eq", i, xs=[dict(id=LABEL + j, k="", c=[])])
    c("eq", 1, xs=[dict(id=0, k="L" if lists else "S" if sets else "D", c=src)])
    if not maps:
        for (s, j) in (("lt", 2), ("le", 4), ("ge", 3), ("gt", 4)):
            c("cmp", 1, rng.randrange(2), s=s, xs=[dict(id=LABEL + j, k="", c=[])])
    if sets:
        c("isdisjoint", 1, xs=[dict(id=LABEL + 2, k="", c=[])])
        c("issubset", 1, xs=[dict(id=LABEL + 3, k="", c=[])])
        c("issuperset", 3, xs=[dict(id=LABEL + 1, k="", c=[])])
    c("hash", 1)
    c("hash", 4)
    c("dictkey", 4, xs=[dict(id=LABEL + 1, k="", c=[])])
    # copies of other sorts
    c("copycopy", 3, **into(11))
    c("pickle", 3, rng.randint(0, 5), **into(12))
    c("deepcopy", 5, **into(13))
    c("xpickle", 3, 2)
    if not sets:
        c("json", 9)
    for j in (3, 5):
        c("str", j)
        c("repr", j)
    read(11, 12, 13, 3, 5)
    for j in (1, 2, 3, 9, 5):
        c("len", j)
    return dict(lt=[], full=False, scene=1, calls=calls)


LABEL = 100000


def wide_jobs(prop, kinds, sizes, parts, seed, work):
    rng = random.Random("%s/wide/%d" % (prop, seed))
    hists = [wide(k, n, rng) for k in kinds for n in sizes]
    return [replayer(prop, "wide-%d" % i, hists[i::parts], work) for i in range(parts)]


def huge_jobs(prop, kinds, sizes, seed, work):
    rng = random.Random("%s/huge/%d" % (prop, seed))
    return [replayer(prop, "huge-%s-%d" % (k, n), [huge(k, n, rng)], work) for k in kinds for n in sizes]
