"""Which jobs make up the check of each property."""
import functools

import sys

C = sys.modules.get("check") or sys.modules["__main__"]

ASSUMPTIONS = [
    "phamt (the C library of persistent arrays), CPython and TLC are trusted",
    "values come from the table of harness/universe.py and from 1600 further integers",
]
RULE12 = ("histories: executions of the real lazy values under schedules of 2 to 4 threads chosen "
          "exhaustively up to a number of preemptions, at random, or by TLC from the model LazyConc; "
          "every distinct execution is checked by TLC against LazyObs")
RULE22 = ("histories: executions of the real collections under schedules of 2 or 3 threads (every pair of "
          "operations with preemptions at the lines of the library, orders of steps that TLC printed from the "
          "model Threads, and random ones); the events, in the order of their returns, are checked by TLC "
          "against the state machine spec/Collections.tla")
RULE = ("histories: random operations on up to 12 live collections, from the property's "
        "profile in harness/profiles.py; every event is checked by TLC against the state "
        "machine spec/Collections.tla")




def scene_plan(prop, tier, seed):
    """(name, module, cfg, constants, transpositions, share of the menus) of a property."""
    import scenes as S
    quick = tier == "quick"
    res = []

    def lst(bases, f):
        res.append(("lists", "ListRep", "ListRep.cfg",
                    dict(MaxLen=4, MaxOff=3, OneIn=1, Most=1000, Seed=seed) if quick else
                    dict(MaxLen=6, MaxOff=5, OneIn=1, Most=1000, Seed=seed),
                    [S.Lists(b, fail=prop == "C16") for b in bases], f if quick else 1.0))

    def chn(bases, one, most):
        res.append(("chains", "ChainRep", "ChainRep.cfg",
                    dict(NK=4, MaxTop=5, OneIn=one, Most=most, Seed=seed) if quick else
                    dict(NK=4, MaxTop=6, OneIn=2, Most=60, Seed=seed),
                    [S.Chains(b, *m, fail=prop == "C16") for b in bases
                     for m in ((S.KMAP,) if quick else (S.KMAP, S.IMAP))], 1.0))

    def coll(fam, bases, starts, depth, objs, one, maps=(S.KMAP,)):
        # thorough: every scene, one step deeper, also with colliding integers as keys
        for b in bases:
            for st in starts:
                m = [None] if b in ("pl", "ll") else [x[0] for x in maps]
                if not quick and m != [None]:
                    m = [S.KMAP[0], S.IMAP[0]]
                res.append(("coll-%s-%s-%s" % (fam, b, st), "MCColl", "MCColl.cfg",
                            dict(Fam='"%s"' % fam, Base='"%s"' % b, Start='"%s"' % st,
                                 MaxDepth=depth if quick else depth + 1, MaxObj=objs,
                                 OneIn=one * (1 + (fam == "share" and st.startswith("temp"))) if quick else max(1, one // 8), Seed=seed),
                            [S.Direct(b, x) for x in m], 1.0))

    def one(fam, bases, oneIn):
        for b in bases:
            res.append(("one-%s-%s" % (fam, b), "MCOne", "MCOne.cfg",
                        dict(Fam='"%s"' % fam, Base='"%s"' % b, OneIn=oneIn if quick else 1, Seed=seed),
                        [S.Direct(b, None)] + [S.Colliding(b)] * (fam == "cmp"), 1.0))
    if prop in ("C01", "C08", "C15"):
        coll("share", ["pl", "ll", "ps", "pd", "ld"], ["pers", "temp"], 3, 4, 2)
        if not quick:
            coll("share", ["pl", "ll", "ps", "pd", "ld"], ["empty", "persneg", "tempneg"], 3, 4, 2)
    elif prop in ("C02", "C03"):
        coll("share", ["pl"], ["persneg", "tempneg"], 3, 4, 4)
    elif prop in ("C04", "C05"):
        coll("share", ["ps"], ["persneg", "tempneg"], 3, 4, 4)
    elif prop in ("C06", "C07"):
        coll("share", ["pd"], ["persneg", "tempneg"], 3, 4, 4)
    elif prop == "C17":
        coll("iter", ["pl", "ll", "ps", "pd", "ld"], ["temp", "tempneg"], 3, 2, 2)
        if not quick:
            coll("iter", ["pl", "ll", "ps", "pd", "ld"], ["pers", "persneg", "empty"], 3, 2, 2)
    elif prop == "C21":
        coll("share", ["pl", "ps", "pd"], ["pers", "temp"], 3, 4, 4)
        one("cmp", ["pl", "ps", "pd"], 8)
        one("con", ["pl", "ps", "pd"], 4)
        one("str", ["pl", "tl", "ps", "ts", "pd", "td"], 8)
    if prop in ("C09", "C10", "C11"):
        one("cmp", ["pl", "ps", "pd"] if prop != "C11" else ["ps", "pl"], 3)
    elif prop in ("C20", "C01"):
        one("con", ["pl", "ps", "pd"], 1 if prop == "C20" else 4)
    elif prop == "C19":
        one("str", ["pl", "tl", "ll", "tll", "ps", "ts", "pd", "td", "ld", "tld"], 4)
        one("lazy", ["ll", "ld"], 20)
    elif prop in ("C13", "C14", "C16", "C18"):
        one("lazy", ["ll", "tll", "ld", "tld"], 10)
    if prop in ("C02", "C03"):
        lst(["pl"], 0.35)
    elif prop in ("C04", "C05"):
        chn(["ps"], 10, 24)
    elif prop in ("C06", "C07"):
        chn(["pd"], 10, 24)
    elif prop in ("C01", "C08", "C15", "C16"):
        lst(["pl", "ll"], 0.06)
        chn(["pd", "ps"], 30, 20)
    elif prop in ("C13", "C14"):
        lst(["ll"], 0.12)
        chn(["ld"], 20, 20)
    elif prop in ("C17", "C18"):
        chn(["pd", "ld"], 30, 20)
    return res


HUGE = {"C02": ["pl"], "C03": ["tl"], "C04": ["ps"], "C05": ["ts"], "C06": ["pd"], "C07": ["td"],
        "C13": ["ll"], "C20": ["tl", "pl", "ts", "td", "ll"]}


def huge_plan(prop, tier):
    """(kinds, sizes) of the large inputs of a property."""
    kinds = HUGE.get(prop, [])
    if tier == "quick":
        return kinds, [66000]
    if prop == "C20":
        kinds = ["pl", "tl", "ll", "tll", "ps", "ts", "pd", "td", "ld", "tld"]
    return kinds, [33, 1025, 32769, 65537, 66000, 70000]


def wide_plan(prop, tier):
    """(kinds, sizes, parts) of the families of large collections of a property."""
    kinds = {"C02": ["pl", "ll"], "C03": ["pl", "ll"], "C04": ["ps"], "C05": ["ps"], "C06": ["pd", "ld"],
             "C07": ["pd", "ld"], "C11": ["pl", "ps"], "C13": ["ll", "ld"], "C14": ["ll", "ld"],
             "C21": ["pl", "ps", "pd"]}.get(prop, ["pl", "ll", "ps", "pd", "ld"])
    if tier == "quick":
        return kinds, [20, 40, 70, 300, 1030, 2100], 2
    return kinds, [20, 34, 40, 70, 70, 300, 300, 1030, 1030, 2100, 2100, 5000, 33000, 66000], 16


def jobs(prop, tier, seed, work):
    if prop == "C22":
        import thread_jobs
        return thread_jobs.jobs(tier, seed, work)
    if prop == "C12":
        import conc_jobs
        return conc_jobs.jobs(tier, seed, work) + [
            functools.partial(C.trace_job, prop, seed * 100000 + i, 4000, work)
            for i in range(4 if tier == "quick" else 80)]
    import scenes as S
    (n, nev) = (24, 4000) if tier == "quick" else (480, 6000)
    res = [S.scene_jobs(prop, name, mod, cfg, consts, trs, f, seed, work, 8 if tier == "quick" else 64)
           for (name, mod, cfg, consts, trs, f) in scene_plan(prop, tier, seed)]
    res += S.huge_jobs(prop, *huge_plan(prop, tier), seed, work)
    res += S.wide_jobs(prop, *wide_plan(prop, tier), seed, work)
    return res + [functools.partial(C.trace_job, prop, seed * 100000 + i, nev, work) for i in range(n)]
