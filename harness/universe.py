"""The universe of values that histories are made of.

Every value the harness puts into a collection is an object of this table and is
known to the specification by its token (a positive integer).  For each token
the table records what the specification must know about the value: its
equality class, whether it is hashable, its order class and rank, its repr and
its JSON text.  Tokens >= 1000 are the integers with that value ("bulk" values);
negative tokens -1, -2, .. are lazy values, which belong to a history.
"""

import json

ALIEN = -9999      # an object that the harness never made
BROKEN = -9998     # reading the contents raised an exception
NIL = 99999        # "argument not given"


class Boom(Exception):
    """The failure that the harness injects."""


class Arm:
    """Makes the n-th hash or comparison of a K raise Boom (n = 0: none)."""
    n = 0
    fired = False

    def hit(self):
        if self.n:
            self.n -= 1
            if self.n == 0:
                self.fired = True
                raise Boom("armed")


ARM = Arm()


class K:
    """A hashable, unordered value with a chosen hash; equal by (h, n)."""
    __slots__ = ("h", "n")

    def __init__(self, h, n):
        self.h = h
        self.n = n

    def __hash__(self):
        ARM.hit()
        return self.h

    def __eq__(self, o):
        ARM.hit()
        return (self.h, self.n) == (o.h, o.n) if isinstance(o, K) else NotImplemented

    def __repr__(self):
        return "K%d_%d" % (self.h, self.n)

    def __reduce__(self):
        return (K, (self.h, self.n))


class Blank:
    """A value whose repr is empty."""

    def __repr__(self):
        return ""

    def __reduce__(self):
        return "BLANK"


BLANK = Blank()


class Wild:
    """A value that claims to be equal to everything (like unittest.mock.ANY)."""

    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    __hash__ = None


WILD = Wild()
BIG = (1 << 61) - 1
BULK = 90000        # the bulk values end here


class Universe:
    """tokens: list of dicts(tok, obj, eq, h(ashable), oc, rank, rp, js, grp)"""

    def __init__(self, pc):
        self.rows = []          # index 0 is token 1
        self.groups = {"nest": []}
        self._by_id = {}
        eqn = [0]

        def add(obj, grp, eq=None, oc=0, rank=0, js="", unhash=False, po=0, mem=()):
            tok = len(self.rows) + 1
            if eq is None:
                eq = tok
            else:
                eq = self.tok_named[eq]
            r = dict(tok=tok, obj=obj, eq=eq, h=0 if unhash else 1, oc=oc,
                     rank=rank, rp=repr(obj), js=js, po=po, mem=list(mem))
            self.rows.append(r)
            for g in grp.split():
                self.groups.setdefault(g, []).append(tok)
            self._by_id[id(obj)] = tok
            return tok
        self.tok_named = {}
        N = self.tok_named
        # small numbers, with equal values of different types
        for i in range(0, 8):
            N[i] = add(i, "num int basic hk j", oc=1, rank=i * 10, js=str(i))
        N["t"] = add(True, "num twin basic hk j", eq=1, oc=1, rank=10, js="true")
        N["f"] = add(False, "num twin hk j", eq=0, oc=1, rank=0, js="false")
        N["1."] = add(float("1.0"), "num twin basic hk j", eq=1, oc=1, rank=10, js="1.0")
        N["2."] = add(float("2.0"), "num twin hk j", eq=2, oc=1, rank=20, js="2.0")
        N["0."] = add(float("0.0"), "num twin hk j", eq=0, oc=1, rank=0, js="0.0")
        N["-0."] = add(float("-0.0"), "num twin hk", eq=0, oc=1, rank=0, js="-0.0")
        N["2.5"] = add(2.5, "num hk j", oc=1, rank=25, js="2.5")
        # integers whose hashes collide with those of other integers
        N[-1] = add(-1, "num coll hk j", oc=1, rank=-10, js="-1")
        N[-2] = add(-2, "num coll hk j", oc=1, rank=-20, js="-2")
        N["B3"] = add(BIG + 3, "num coll hk", oc=1, rank=1000000000, js=str(BIG + 3))
        N["B3b"] = add(2 * BIG + 3, "num coll hk", oc=1, rank=1000000003, js=str(2 * BIG + 3))
        N["B0"] = add(BIG, "num coll hk", oc=1, rank=999999000, js=str(BIG))
        N["B1"] = add(BIG + 1, "num coll hk", oc=1, rank=1000000000 - 500, js=str(BIG + 1))
        for i in (2, 3):
            N["B1" + "xbc"[i - 1]] = add(i * BIG + 1, "num coll hk", oc=1, rank=999999998 + 2 * i, js=str(i * BIG + 1))
        # strings
        for (i, s) in enumerate(["a", "b", "c", "d", "e", "f", "x y", ""]):
            N[s] = add(s, "str basic hk key j" if s.isalpha() else "str hk j",
                       oc=2, rank=(i if s else -1), js='"%s"' % s)
        # strings of chosen lengths (for the text forms)
        for (i, n) in enumerate([4, 9, 12, 17, 26, 27, 28, 53, 54, 55, 56, 57, 58, 59, 60, 70]):
            s = "z" + "yw"[i % 2] * n
            s = s[:n]
            N["s%d" % n] = add(s, "text hk", oc=0, js='"%s"' % s)
        # keys with chosen hashes: three colliding groups
        for (h, n) in [(7, 1), (7, 2), (7, 3), (7, 4), (7, 5), (3, 1), (3, 2),
                       (3, 3), (-5, 1), (-5, 2), (-5, 3)]:
            N["K%d_%d" % (h, n)] = add(K(h, n), "K coll hk")
        # an equal but distinct copy of two of them
        N["k7_1"] = add(K(7, 1), "K twin hk", eq="K7_1")
        N["k7_2"] = add(K(7, 2), "K twin hk", eq="K7_2")
        N["k3_1"] = add(K(3, 1), "K twin hk", eq="K3_1")
        # odd values
        N["None"] = add(None, "odd hk j", js="null")
        N["..."] = add(Ellipsis, "odd hk")
        N["nan"] = add(float("nan"), "nan hk", po=1)
        N["nan2"] = add(float("nan"), "nan hk", po=1)
        N["tup"] = add((1, 2), "odd hk", oc=3, rank=2)
        N["tup0"] = add((), "odd hk", oc=3, rank=0)
        N["tup1"] = add((1,), "odd hk", oc=3, rank=1)
        N["fn"] = add(len, "odd hk")
        # unhashable values
        N["l"] = add([9, 8], "unh", unhash=True)
        N["dct"] = add({"q": 1}, "unh", unhash=True)
        N["set"] = add({77}, "unh", unhash=True)
        # strings of all the other lengths (for the scenes of text forms)
        for n in range(1, 64):
            if "s%d" % n not in N and n not in (1, 2):
                s = ("u" + "vt"[n % 2] * n)[:n]
                N["s%d" % n] = add(s, "text2 hk", oc=0, js='"%s"' % s)
        # strings that need escapes
        for s in ["it's", 'q"q', "a\\b", "n\nl", "t\ta", "\u00e9t\u00e9", "\u4e2d", "\x00", "'\""]:
            N[s] = add(s, "text esc str hk j", oc=2, js=json.dumps(s))
        N["blank"] = add(BLANK, "text blank hk")
        N["wild"] = add(WILD, "wild", unhash=True)
        self.rows[N["wild"] - 1]["eq"] = 0
        words = sorted(r["obj"] for r in self.rows if r["oc"] == 2)
        for r in self.rows:
            if r["oc"] == 2:
                r["rank"] = words.index(r["obj"])
        # persistent collections as values, equal ones of different types
        if pc is not None:
            # (a value that cannot be made is left out)
            def nest(name, eq, make, mem=None, rank=None):
                try:
                    o = make()
                    hash(o)
                    repr(o)
                except Exception:
                    return
                # lists of numbers have an order, sets are ordered by inclusion
                N[name] = add(o, "nest hk", eq=eq if eq in N else None, oc=0 if rank is None else 7,
                              rank=rank or 0, po=0 if mem is None else 2, mem=mem or ())
            nest("p12", None, lambda: pc.plist([1, 2]), rank=2)
            nest("p12b", "p12", lambda: pc.plist([1]).append(2), rank=2)
            nest("l12", "p12", lambda: pc.llist([1]).append(2), rank=2)
            nest("p1", None, lambda: pc.plist([1]), rank=1)
            nest("l2", None, lambda: pc.llist([2]), rank=3)
            nest("s12", None, lambda: pc.pset([1, 2]), [1, 2])
            nest("s21", "s12", lambda: pc.pset([3, 2, 1]).discard(3), [1, 2])
            nest("s1", None, lambda: pc.pset([1]), [1])
            nest("s23", None, lambda: pc.pset([2, 3]), [2, 3])
            nest("s0", None, lambda: pc.pset(), [])
            nest("d12", None, lambda: pc.pdict([(1, 2)]))
            nest("d12b", "d12", lambda: pc.ldict([(3, 4), (1.0, 2)]).drop(3))
            nest("p0", None, lambda: pc.plist(), rank=0)
            nest("l0", "p0", lambda: pc.llist(), rank=0)
        # keys with extreme hashes, one that an int has too, and a long chain
        for (h, n) in [(2 ** 63 - 1, 1), (2 ** 63 - 1, 2), (-2 ** 63, 1), (-2 ** 63, 2), (0, 1), (0, 2), (1, 1),
                       (2 ** 32, 1), (2 ** 32, 2), (31, 1), (31, 2), (-2, 1)]:
            N["K%d_%d" % (h, n)] = add(K(h, n), "xhash hk")
        for n in range(1, 41):
            N["K11_%d" % n] = add(K(11, n), "chain hk")
        self.bulk = [int(str(i)) for i in range(1000, BULK)]
        for (i, o) in enumerate(self.bulk):
            self._by_id[id(o)] = 1000 + i
        assert len(self.rows) < 900
        self._pc = pc

    def obj(self, tok):
        if tok >= 1000:
            return self.bulk[tok - 1000]
        return self.rows[tok - 1]["obj"]

    def token(self, obj):
        """The token of this very object, or ALIEN."""
        return self._by_id.get(id(obj), ALIEN)

    def token_like(self, obj):
        """The token of an object of the same type and repr (for copies)."""
        t = self.token(obj)
        if t != ALIEN:
            return t
        if type(obj) is int and 1000 <= obj < BULK:
            return obj
        try:
            rp = repr(obj)
        except Exception:
            return ALIEN
        for r in self.rows:
            if type(r["obj"]) is type(obj) and r["rp"] == rp:
                return r["tok"]
        return ALIEN

    def hashable(self, tok):
        return tok < 0 or tok >= 1000 or self.rows[tok - 1]["h"] == 1

    def table(self):
        return dict(eq=[r["eq"] for r in self.rows],
                    hs=[r["h"] for r in self.rows],
                    oc=[r["oc"] for r in self.rows],
                    rank=[r["rank"] for r in self.rows],
                    po=[r["po"] for r in self.rows],
                    mem=[r["mem"] for r in self.rows],
                    rp=[r["rp"] for r in self.rows],
                    js=[r["js"] for r in self.rows])
