"""What each property's check generates most of."""

ALLP = dict(pl=3, ll=3, ps=3, pd=3, ld=3)
PROFILES = {
    "C01": dict(kinds=dict(pl=3, ll=3, ps=3, pd=3, ld=3, tl=1, tll=1, ts=1, td=1, tld=1),
                groups=dict(misuse=3, hash=1, conv=2, edit=2.5, bulk=1.5, iter=0.6), p_full=0.9),
    "C02": dict(kinds=dict(pl=12, tl=0.6, ll=0.4), con_kinds=dict(pl=8, tl=1, ll=1, pd=0.4),
                groups=dict(edit=2, bulk=1.2, conv=0.4), p_big=0.15, p_huge=0.01),
    "C03": dict(kinds=dict(tl=12, pl=0.6, tll=0.4), con_kinds=dict(tl=8, pl=1, tll=1, pd=0.4),
                groups=dict(edit=2, bulk=1.2, conv=0.4), p_big=0.15, p_huge=0.01),
    "C04": dict(p_chain=0.12, kinds=dict(ps=12, ts=0.6), con_kinds=dict(ps=8, ts=1, pl=0.6, ll=0.4, pd=0.4),
                groups=dict(edit=2, conv=0.4), palettes=[("K", 8), ("coll", 5), ("num", 4), ("str", 2),
                ("odd", 1), ("nest", 1), ("twin", 3), ("nan", 1), ("xhash", 3)]),
    "C05": dict(p_chain=0.12, kinds=dict(ts=12, ps=0.6), con_kinds=dict(ts=8, ps=1, pl=0.6, ll=0.4, pd=0.4),
                groups=dict(edit=2, conv=0.4), palettes=[("K", 8), ("coll", 5), ("num", 4), ("str", 2),
                ("odd", 1), ("nest", 1), ("twin", 3), ("nan", 1), ("xhash", 3)]),
    "C06": dict(p_chain=0.12, kinds=dict(pd=12, td=0.4, ld=0.6), con_kinds=dict(pd=8, td=1, ld=1, pl=0.4, ts=0.3),
                groups=dict(edit=2, conv=0.4, view=0.4), palettes=[("K", 8), ("coll", 5), ("num", 4),
                ("str", 2), ("odd", 1), ("nest", 1), ("twin", 3), ("nan", 1), ("xhash", 3)]),
    "C07": dict(p_chain=0.12, kinds=dict(td=12, pd=0.4, tld=0.6), con_kinds=dict(td=8, pd=1, tld=1, pl=0.4, ts=0.3),
                groups=dict(edit=2, conv=0.4, view=0.4), palettes=[("K", 8), ("coll", 5), ("num", 4),
                ("str", 2), ("odd", 1), ("nest", 1), ("twin", 3), ("nan", 1), ("xhash", 3)]),
    "C08": dict(kinds=dict(pl=1, ll=1, ps=1, pd=1, ld=1, tl=3, tll=3, ts=3, td=3, tld=3),
                groups=dict(conv=6, edit=3, bulk=1.5, con=1.5, read=0.3, text=0, ser=0.2), p_full=0.85),
    "C09": dict(groups=dict(cmp=6, edit=1, read=0.2, iter=0.1, text=0.1, view=0.2),
                ops=dict(cmp=0.1, isdisjoint=0.1, issubset=0.1, issuperset=0.1), sizes=[
                (0, 2), (1, 4), (2, 5), (3, 4), (4, 2), (5, 1), (7, 1)]),
    "C10": dict(kinds=dict(pl=3, ll=3, ps=3, pd=3, ld=3, tl=0.3, ts=0.3, td=0.3, tld=0.3, tll=0.3),
                groups=dict(hash=10, edit=1.5, read=0.2, iter=0.1, text=0.1, view=0.2), p_lazy=0.5,
                p_full=0.5),
    "C11": dict(kinds=dict(pl=3, ll=2, ps=4, tl=3, tll=2, ts=4), con_kinds=dict(
                pl=3, ll=2, ps=4, tl=3, tll=2, ts=4, pd=0.4),
                groups=dict(cmp=8, read=0.2, iter=0.1, text=0.1), ops=dict(eq=0.3), p_full=1.0,
                palettes=[("num", 8), ("coll", 3), ("str", 3), ("K", 2), ("basic", 4), ("odd", 1), ("nan", 2),
                          ("nest", 3)]),
    "C12": dict(kinds=dict(ll=4, tll=4, ld=4, tld=4),
                groups=dict(con=2, raw=2, conv=1, lone=2), p_lazy=1.0, p_full=0.5, p_fail=0.5),
    "C13": dict(kinds=dict(ll=4, tll=4, ld=4, tld=4, pl=0.5, tl=0.5, pd=0.5, td=0.5),
                groups=dict(con=2, cmp=1, hash=0.7), p_lazy=1.0, p_full=0.75, p_fail=0.05),
    "C14": dict(kinds=dict(ll=4, tll=4, ld=4, tld=4, pl=0.5, tl=0.4, pd=0.5, td=0.4),
                groups=dict(con=2, raw=2, conv=2, text=1, iter=0.8, ser=0.1), ops=dict(lzheld=8),
                p_lazy=1.0, p_fail=0.1),
    "C15": dict(groups=dict(conv=4, edit=2, bulk=1.5, con=2, read=0.2, text=0, iter=0),
                sizes=[(0, 6), (1, 5), (2, 4), (3, 2), (4, 1), (33, 0.3)]),
    "C16": dict(groups=dict(edit=2, bulk=2, read=1, text=0.1, bad=2), p_lazy=0.5, p_fail=0.4, bad=4.0, p_arm=0.15,
                sizes=[(0, 4), (1, 4), (2, 4), (3, 2), (4, 1), (33, 0.5)]),
    "C17": dict(kinds=dict(pd=4, td=5, ld=3, tld=4, tl=1.5, ts=1.5, pl=0.5, ps=0.5, ll=0.3, tll=0.5),
                groups=dict(view=2, iter=4, edit=2.5, bulk=0.6, text=0.1, ser=0.1, cmp=0.1),
                p_full=0.85),
    "C18": dict(groups=dict(ser=10, edit=1, read=0.2, iter=0.1, text=0.1, view=0.1), p_full=1.0),
    "C19": dict(groups=dict(text=10, edit=1.2, read=0.2, iter=0.1, view=0.1), ops=dict(vrepr=300), palettes=[
                ("text", 10), ("blank", 2), ("num", 2), ("str", 3), ("nest", 2), ("odd", 2), ("K", 2)],
                sizes=[(0, 2), (1, 4), (2, 4), (3, 4), (4, 3), (5, 2), (6, 2), (8, 2), (12, 2), (20, 1)],
                p_lazy=0.5),
    "C21": dict(ops=dict(vodd=0, vrepr=0), kinds=dict(pl=3, tl=3, ps=3, ts=3, pd=3, td=3, ll=0, tll=0, ld=0, tld=0),
                con_kinds=dict(pl=1, tl=1, ps=1, ts=1, pd=1, td=1),
                groups=dict(raw=0, lone=0, cmp=1, hash=1, text=0.5, ser=0.5)),
    "C20": dict(groups=dict(con=12, edit=1, read=0.2, iter=0.1, text=0.05, view=0.1), bad=2.0),
}
