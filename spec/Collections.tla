----------------------------- MODULE Collections -----------------------------
(***************************************************************************)
(* The state machine of pcollections: a heap of collections and a table of *)
(* lazy values.                                                            *)
(*                                                                         *)
(* State.  heap maps object ids to records                                 *)
(*     [k |-> kind, c |-> contents, ver |-> nat, mv |-> nat]               *)
(* where the kind is pl (plist), tl (tlist), ll (llist), tll (tllist),     *)
(* ps (pset), ts (tset), pd (pdict), td (tdict), ld (ldict), tld (tldict)  *)
(* or it (an iterator).  Contents are sequences of tokens (lists, sets) or *)
(* of <<key, value>> pairs (dicts).  ver counts the structural changes     *)
(* (keys added or removed) and mv the in-place edits that a transient has  *)
(* had.  lz[j] is the state of the j-th lazy value: its result v, the      *)
(* number f of times its function fails first, the lazy values d that it   *)
(* evaluates itself, the number of calls so far and whether it is ready.   *)
(*                                                                         *)
(* Transitions.  Outcome(e) gives, for one call e of one operation on one  *)
(* object, everything the library promises about it: the exceptions it     *)
(* must raise, the contents that the receiver has afterwards, the value or *)
(* new collection that it returns, and which lazy values it must and may   *)
(* evaluate.  Everything else in the heap stays as it is.                  *)
(***************************************************************************)
EXTENDS ListSem, SetSem, MapSem

VARIABLES heap, lz

ListK == {"pl", "tl", "ll", "tll"}
SetK == {"ps", "ts"}
MapK == {"pd", "td", "ld", "tld"}
Pers == {"pl", "ll", "ps", "pd", "ld"}
Trans == {"tl", "tll", "ts", "td", "tld"}
LazyK == {"ll", "tll", "ld", "tld"}
CollK == Pers \cup Trans
TKind(k) == CASE k = "pl" -> "tl" [] k = "ll" -> "tll" [] k = "ps" -> "ts"
              [] k = "pd" -> "td" [] k = "ld" -> "tld" [] OTHER -> k
PKind(k) == CASE k = "tl" -> "pl" [] k = "tll" -> "ll" [] k = "ts" -> "ps"
              [] k = "td" -> "pd" [] k = "tld" -> "ld" [] OTHER -> k
\* The shared empty objects exist from the start.
EmptyId(k) == CASE k = "pl" -> 1 [] k = "ll" -> 2 [] k = "ps" -> 3 [] k = "pd" -> 4
                [] k = "ld" -> 5 [] OTHER -> 0
HoldKind(k) == CASE k = "ll" -> "pl" [] k = "ld" -> "pd" [] k = "tld" -> "td" [] OTHER -> k

Obj0(k, c) == [k |-> k, c |-> c, ver |-> 0, mv |-> 0]
InitHeap == [i \in 1..5 |-> Obj0(<<"pl", "ll", "ps", "pd", "ld">>[i], <<>>)]

-----------------------------------------------------------------------------
(* Lazy values.                                                            *)
DT(t) == IF IsLazy(t) THEN lz[-t].v ELSE t
Der(k, c) ==
  IF k \notin LazyK THEN c
  ELSE IF k \in MapK THEN [i \in Idx(c) |-> <<c[i][1], DT(c[i][2])>>]
  ELSE [i \in Idx(c) |-> DT(c[i])]
\* The lazy values that evaluating the lazy values S evaluates.
Close(S) == S \cup UNION {RangeOf(lz[j].d) : j \in S}
LzTok(k, t) == IF k \in LazyK /\ IsLazy(t) THEN Close({-t}) ELSE {}
LzIn(k, c) ==
  IF k \notin LazyK THEN {}
  ELSE IF k \in MapK THEN Close({-c[i][2] : i \in {j \in Idx(c) : IsLazy(c[j][2])}})
  ELSE Close({-c[i] : i \in {j \in Idx(c) : IsLazy(c[j])}})
IsReady(t) == IF IsLazy(t) THEN lz[-t].rdy = 1 ELSE TRUE

-----------------------------------------------------------------------------
(* Arguments.  An argument is [id |-> object id or 0, k |-> kind, c |->    *)
(* contents]: an object of the heap, or a native value made for the call:  *)
(* L list, T tuple, G generator, I iterator, S set, F frozenset, D dict,   *)
(* P list of pairs, GP generator of pairs, MP some other mapping, V dict   *)
(* keys view, X (XP) a generator of items (pairs) that then raises Boom,   *)
(* O an object of an unrelated type, PB pairs of three, BI bare integers.  *)
AK(x) == IF x.id > 0 THEN heap[x.id].k ELSE x.k
AC(x) == IF x.id > 0 THEN heap[x.id].c ELSE x.c
ItemsOf(x) ==
  IF AK(x) \in MapK \cup {"D", "MP"} THEN Keys(AC(x)) ELSE Der(AK(x), AC(x))
LzItems(x) == IF AK(x) \in ListK THEN LzIn(AK(x), AC(x)) ELSE {}
PairsOf(x) == Der(AK(x), AC(x))
LzPairs(x) == IF AK(x) \in MapK THEN LzIn(AK(x), AC(x)) ELSE {}
Raises(x) == AK(x) \in {"X", "XP"}
ListLike(k) == k \in ListK \cup {"L"}
SetLike(k) == k \in SetK \cup {"S", "F", "V"}
MapLike(k) == k \in MapK \cup {"D", "MP"}
Iterable(k) == k # "O"

-----------------------------------------------------------------------------
(* Outcomes.  ex: if not empty, the call raises one of these and returns   *)
(* nothing (opt: it may raise one of these instead of what is described);  *)
(* nothing; post: the contents of the receiver afterwards; rk/rv/rm: the   *)
(* kind, value and comparison mode of the result; ok/oc/om: the kind,      *)
(* contents and comparison mode of a resulting collection, oid the very    *)
(* object it must be (0: any), fresh: it must be a new object; must/may:   *)
(* the lazy values that are ready afterwards, that may be evaluated.       *)
(*                                                                         *)
(* Comparison modes: x the same objects in the same order; w the same up   *)
(* to replacing a lazy value by its result; q an equal-looking copy; s the *)
(* same set of equality classes, each once; b the same bag of equality classes; m a mapping in *)
(* insertion order (keys by equality, values by identity); mw, mq: m with  *)
(* the values compared by w, q; sub: an element of the set; e: equality    *)
(* classes in order.                                                       *)
Ret(c) == [ex |-> {}, post |-> c, pm |-> "x", rk |-> "none", rv |-> <<>>, rm |-> "x",
           ok |-> "", oc |-> <<>>, om |-> "x", oid |-> 0, fresh |-> FALSE,
           must |-> {}, may |-> {}, opt |-> {}]
ModeOf(k) == IF k \in SetK THEN "s" ELSE IF k \in MapK THEN "m" ELSE "x"
Err(c, S) == [Ret(c) EXCEPT !.ex = S]
RInt(c, i) == [Ret(c) EXCEPT !.rk = "int", !.rv = <<i>>]
RBool(c, b) == [Ret(c) EXCEPT !.rk = "bool", !.rv = <<IF b THEN 1 ELSE 0>>]
RBools(c, s) == [Ret(c) EXCEPT !.rk = "bools", !.rv = [i \in Idx(s) |-> IF s[i] THEN 1 ELSE 0]]
RTok(c, t) == [Ret(c) EXCEPT !.rk = "tok", !.rv = <<t>>]
RToks(c, s) == [Ret(c) EXCEPT !.rk = "toks", !.rv = s]
RSet(c, s) == [Ret(c) EXCEPT !.rk = "toks", !.rv = s, !.rm = "s"]
RPairs(c, s) == [Ret(c) EXCEPT !.rk = "pairs", !.rv = s, !.rm = "m"]
RObj(c, k, oc) == [Ret(c) EXCEPT !.rk = "obj", !.ok = k, !.oc = oc, !.om = ModeOf(k),
                                 !.fresh = k \in Trans]
RStr(c, S) == [Ret(c) EXCEPT !.rk = "str", !.rv = S]
RPost(c2) == Ret(c2)
Forces(o, must, may) == [o EXCEPT !.must = must, !.may = must \cup may]
Canon(o) == IF o.oc = <<>> /\ o.ok \in Pers THEN [o EXCEPT !.oid = EmptyId(o.ok)] ELSE o

\* An edit: a new collection from a persistent one, a new state of a transient.
Edit(k, c, c2) ==
  IF k \in Pers THEN RObj(c, k, c2) ELSE [Ret(c2) EXCEPT !.pm = ModeOf(k)]
Weak(o) == [o EXCEPT !.om = IF @ = "m" THEN "mw" ELSE IF @ = "x" THEN "w" ELSE @,
                     !.pm = IF @ = "m" THEN "mw" ELSE IF @ = "x" THEN "w" ELSE @]

NoneTok == CHOOSE t \in 1..Len(URp) : URp[t] = "None"
Opt(a, i, d) == IF Len(a) >= i THEN a[i] ELSE d

\* Bulk edits: the items before the first one that cannot be hashed, and the
\* exception that ends the edit, if any.
BadAt(s) == {i \in Idx(s) : ~Hashable(s[i])}
GoodPart(s) == IF BadAt(s) = {} THEN s ELSE SubSeq(s, 1, MinOf(BadAt(s)) - 1)
BadEx(s, x) == IF BadAt(s) # {} THEN {"TypeError"} ELSE IF Raises(x) THEN {"Boom"} ELSE {}
Stop(o, k, c, ex) ==   \* o, or o's in-place effect and the exception ex
  IF ex = {} THEN o
  ELSE [Err(IF k \in Pers THEN c ELSE o.post, ex) EXCEPT
          !.pm = ModeOf(k), !.may = o.may]

-----------------------------------------------------------------------------
(* Text forms: see SeqStr.tla for the bounded text.                        *)
RECURSIVE Joined(_)
Joined(s) ==
  IF Len(s) = 0 THEN ""
  ELSE IF Len(s) = 1 THEN s[1]
  ELSE LET h == Len(s) \div 2
       IN Joined(SubSeq(s, 1, h)) \o ", " \o Joined(SubSeq(s, h + 1, Len(s)))
PartsLen(s, m) == FoldLeft(LAMBDA acc, p : acc + Len(p), 0, SubSeq(s, 1, m)) + 2 * Max2(m - 1, 0)
\* The longest prefix of whole parts that fits in 60 characters with ", ..."
Bounded(s) ==
  IF PartsLen(s, Len(s)) <= 60 THEN Joined(s)
  ELSE LET fits == {m \in 1..Min2(Len(s), 61) : PartsLen(s, m) + 5 <= 60}
       IN IF fits = {} THEN "..." ELSE Joined(SubSeq(s, 1, MaxOf(fits))) \o ", ..."
Opens(k) == CASE k \in {"pl", "ll"} -> {<<"[|", "|]">>}
              [] k \in {"tl", "tll"} -> {<<"[<", ">]">>}
              [] k \in {"ps", "pd", "ld"} -> {<<"{|", "|}">>}
              [] k = "ts" -> {<<"{<", ">}">>}
              [] OTHER -> {<<"{<", ">}">>, <<"{|", "|}">>}
PlaceH == {"a", "b"}   \* two placeholder styles: <lazy>, and the repr of the lazy object
TokText(k, t, st) ==
  IF IsLazy(t) /\ k \in LazyK /\ st = "a" THEN "<lazy>"
  ELSE IF IsLazy(t) THEN (IF lz[-t].rdy = 1 THEN "lazy#ready" ELSE "lazy#waiting")
  ELSE Repr(t)
Parts(k, c, st) ==
  IF k \in MapK THEN [i \in Idx(c) |-> Repr(c[i][1]) \o ": " \o TokText(k, c[i][2], st)]
  ELSE [i \in Idx(c) |-> TokText(k, c[i], st)]
TextOf(k, c, bounded) ==
  {d[1] \o (IF bounded THEN Bounded(Parts(k, c, st)) ELSE Joined(Parts(k, c, st))) \o d[2] :
     d \in Opens(k), st \in IF bounded THEN {"a"} ELSE PlaceH}
JKey(t) == IF OrdC(t) = 2 THEN JText(t) ELSE "\"" \o JText(t) \o "\""
JsonText(k, d) ==
  IF k \in MapK
  THEN "{" \o Joined([i \in Idx(d) |-> JKey(d[i][1]) \o ": " \o JText(d[i][2])]) \o "}"
  ELSE "[" \o Joined([i \in Idx(d) |-> JText(d[i])]) \o "]"

-----------------------------------------------------------------------------
(* Equality of two objects, by contents.                                   *)
FamOf(k) == IF k \in ListK \cup {"L"} THEN "list"
            ELSE IF k \in SetK \cup {"S", "F", "V"} THEN "set"
            ELSE IF k \in MapK \cup {"D", "MP"} THEN "map" ELSE "other"
SameContents(k, c, kx, cx) ==   \* contents already without lazy values
  /\ FamOf(k) = FamOf(kx)
  /\ CASE FamOf(k) = "list" -> LEq(c, cx)
       [] FamOf(k) = "set" -> SEq(c, cx)
       [] FamOf(k) = "map" -> MEq(c, cx)
       [] OTHER -> FALSE
CanonOf(k, d) ==
  CASE FamOf(k) = "list" -> LCanon(d) [] FamOf(k) = "set" -> SCanon(d) [] OTHER -> MCanon(d)
AllHashable(k, d) ==
  IF k \in MapK THEN \A i \in Idx(d) : Hashable(d[i][2]) ELSE \A i \in Idx(d) : Hashable(d[i])

CmpOut(c, op, r) ==   \* r: "eq", "lt", "gt", "un", "err"
  IF r = "err" THEN Err(c, {"TypeError"})
  ELSE RBool(c, CASE op = "lt" -> r = "lt" [] op = "le" -> r \in {"lt", "eq"}
                  [] op = "gt" -> r = "gt" [] OTHER -> r \in {"gt", "eq"})

-----------------------------------------------------------------------------
(* Operations that every collection has.                                   *)
CommonOps == {"len", "bool", "eq", "cmp", "hash", "dictkey", "str", "repr", "json", "pickle", "xpickle",
              "copycopy", "deepcopy", "copy", "transient", "persistent", "clear", "misuse",
              "list", "contains", "observe", "is_lazy", "is_ready", "getlazy", "ready_all",
              "hold", "holdlazy"}
ReadPos(e, k, c) ==   \* position of the entry that is_lazy, is_ready, getlazy address; 0 if none
  IF k \in MapK THEN (IF MHas(c, e.a[1]) THEN MAt(c, e.a[1]) ELSE 0)
  ELSE (IF InRange(e.a[1], Len(c)) THEN Pos(e.a[1], Len(c)) ELSE 0)
RawAt(k, c, p) == IF k \in MapK THEN c[p][2] ELSE c[p]
NoEntry(k) == IF k \in MapK THEN {"KeyError"} ELSE {"IndexError"}

CommonOut(e, k, c) ==
  LET n == Len(c)
      d == Der(k, c)
      L == LzIn(k, c)
      x == e.xs[1]
      p == ReadPos(e, k, c)
      Copied == IF k \in Pers THEN [RObj(c, k, c) EXCEPT !.oid = e.r] ELSE RObj(c, k, c)
  IN
  CASE e.op = "len" -> RInt(c, n)
    [] e.op = "observe" -> Ret(c)
    [] e.op = "bool" -> RBool(c, n > 0)
    [] e.op = "list" -> Forces(IF k \in MapK THEN RToks(c, Keys(c)) ELSE RToks(c, d),
                               IF k \in ListK THEN L ELSE {}, {})
    [] e.op = "contains" ->
         IF k \in ListK THEN Forces(RBool(c, At(d, e.a[1]) # {}), {}, L)
         ELSE IF ~Hashable(e.a[1]) THEN Err(c, {"TypeError"})
         ELSE RBool(c, IF k \in SetK THEN SHas(c, e.a[1]) ELSE MHas(c, e.a[1]))
    [] e.op = "eq" ->
         LET same == SameContents(k, d, AK(x), Der(AK(x), AC(x)))
         IN Forces(RBools(c, <<same, same, ~same, ~same>>), {}, L \cup LzIn(AK(x), AC(x)))
    [] e.op = "cmp" ->
         LET kx == AK(x)
             dx == Der(kx, AC(x))
             op == IF e.a[1] = 0 THEN e.s
                   ELSE CASE e.s = "lt" -> "gt" [] e.s = "le" -> "ge"
                          [] e.s = "gt" -> "lt" [] OTHER -> "le"   \* x op self
         IN IF k \in MapK \/ FamOf(kx) # FamOf(k) THEN Err(c, {"TypeError"})
            ELSE IF k \in ListK
            THEN Forces(CmpOut(c, op, LCmp(d, dx)), {}, L \cup LzIn(kx, AC(x)))
            ELSE RBool(c, CASE op = "lt" -> SSub(d, dx) /\ ~SSub(dx, d)
                            [] op = "le" -> SSub(d, dx)
                            [] op = "gt" -> SSub(dx, d) /\ ~SSub(d, dx)
                            [] OTHER -> SSub(dx, d))
    [] e.op = "hash" ->
         IF k \notin Pers \/ ~AllHashable(k, d) THEN Forces(Err(c, {"TypeError"}), {}, L)
         ELSE Forces([Ret(c) EXCEPT !.rk = "hash"], L, {})
    [] e.op = "dictkey" ->   \* x, a persistent collection, looked up among the keys {self}
         LET dx == Der(AK(x), AC(x))
         IN IF ~AllHashable(k, d) \/ ~AllHashable(AK(x), dx)
            THEN Forces(Err(c, {"TypeError"}), {}, L \cup LzIn(AK(x), AC(x)))
            ELSE Forces(RBool(c, SameContents(k, d, AK(x), dx)), {}, L \cup LzIn(AK(x), AC(x)))
    [] e.op = "str" -> RStr(c, TextOf(k, c, TRUE))
    [] e.op = "repr" -> RStr(c, TextOf(k, c, FALSE))
    [] e.op = "json" -> Forces(RStr(c, {JsonText(k, d)}), L, {})
    [] e.op = "pickle" ->
         Canon([Forces(RObj(c, k, d), L, {}) EXCEPT !.om = IF k \in MapK THEN "mq" ELSE IF k \in SetK THEN "sq" ELSE "q"])
    \* pickled, and read in another process: it has its length there, gives its items in
    \* their order, finds each of them, equals and hashes like one made there, can be edited
    [] e.op = "xpickle" -> Forces(RBools(c, [i \in 1..6 |-> TRUE]), L, {})
    [] e.op = "deepcopy" ->
         Canon([Forces(RObj(c, k, d), L, {}) EXCEPT !.om = IF k \in MapK THEN "mq" ELSE IF k \in SetK THEN "sq" ELSE "q"])
    [] e.op = "copycopy" ->
         Canon(Forces(Weak(RObj(c, k, c)), {}, L))
    [] e.op = "copy" -> Copied
    [] e.op = "transient" -> RObj(c, TKind(k), c)
    [] e.op = "persistent" -> Canon(RObj(c, PKind(k), c))
    [] e.op = "clear" ->
         IF k \in Pers THEN [RObj(c, k, <<>>) EXCEPT !.oid = EmptyId(k)] ELSE RPost(<<>>)
    [] e.op = "misuse" -> Err(c, {"TypeError"})
    [] e.op = "is_lazy" -> IF p = 0 THEN Err(c, NoEntry(k)) ELSE RBool(c, IsLazy(RawAt(k, c, p)))
    [] e.op = "is_ready" -> IF p = 0 THEN Err(c, NoEntry(k)) ELSE RBool(c, IsReady(RawAt(k, c, p)))
    [] e.op = "getlazy" ->
         IF p # 0 THEN RTok(c, RawAt(k, c, p))
         ELSE IF k \in MapK THEN RTok(c, Opt(e.a, 2, NoneTok)) ELSE Err(c, {"IndexError"})
    [] e.op = "ready_all" -> Forces([RObj(c, k, c) EXCEPT !.oid = e.r, !.fresh = FALSE], L, {})
    [] e.op = "holdlazy" /\ k \notin {"ll", "ld", "tld"} ->
         IF e.var = 1 THEN Err(c, {"TypeError"}) ELSE [RObj(c, k, c) EXCEPT !.oid = e.r, !.fresh = FALSE]
    [] e.op \in {"hold", "holdlazy"} -> RObj(c, HoldKind(k), c)

-----------------------------------------------------------------------------
(* Lists.                                                                  *)
ListOut(e, k, c) ==
  LET n == Len(c)
      d == Der(k, c)
      L == LzIn(k, c)
      a == e.a
      x == e.xs[1]
      Ed(c2) == Edit(k, c, c2)
      Del(i) == IF InRange(i, n) THEN Ed(LDel(c, i)) ELSE Err(c, {"IndexError"})
      xs == ItemsOf(x)
      AddErr == IF k \in Pers THEN ~(AK(x) \in {"pl", "ll", "L"}) ELSE ~ListLike(AK(x))
  IN
  CASE e.op = "get" ->
         IF ~InRange(a[1], n) THEN Err(c, {"IndexError"})
         ELSE LET t == c[Pos(a[1], n)]
              IN Forces(RTok(c, IF k \in LazyK THEN DT(t) ELSE t), LzTok(k, t), {})
    [] e.op = "slice" ->
         IF a[3] = 0 THEN Err(c, {"ValueError"}) ELSE RObj(c, k, LSlice(c, a[1], a[2], a[3]))
    [] e.op = "rev" -> Forces(RToks(c, Rev(d)), L, {})
    [] e.op = "index" ->
         LET i == LIndex(d, a[1], Opt(a, 2, NIL), Opt(a, 3, NIL))
         IN Forces(IF i = -1 THEN Err(c, {"ValueError"}) ELSE RInt(c, i), {}, L)
    [] e.op = "count" -> Forces(RInt(c, Cardinality(At(d, a[1]))), L, {})
    [] e.op = "set" -> IF InRange(a[1], n) THEN Ed(LSet(c, a[1], a[2])) ELSE Err(c, {"IndexError"})
    [] e.op = "delete" -> Del(Opt(a, 1, -1))
    [] e.op = "drop" -> IF InRange(Opt(a, 1, -1), n) THEN Del(Opt(a, 1, -1)) ELSE RObj(c, k, c)
    [] e.op = "pop" ->
         LET i == Opt(a, 1, -1)
             t == c[Pos(i, n)]
             v == IF k \in LazyK THEN DT(t) ELSE t
         IN IF ~InRange(i, n) THEN Err(c, {"IndexError"})
            ELSE IF k \in Pers
            THEN Forces([RObj(c, k, LDel(c, i)) EXCEPT !.rk = "tokobj", !.rv = <<v>>], LzTok(k, t), {})
            ELSE Forces([RTok(LDel(c, i), v) EXCEPT !.pm = "x"], LzTok(k, t), {})
    [] e.op = "insert" -> Ed(LIns(c, a[1], a[2]))
    [] e.op = "append" -> Ed(Append(c, a[1]))
    [] e.op = "prepend" -> Ed(<<a[1]>> \o c)
    [] e.op = "extend" ->
         IF ~Iterable(AK(x)) THEN Err(c, {"TypeError"})
         ELSE Stop(Forces(Weak(Ed(c \o xs)), {}, LzItems(x)), k, c, IF Raises(x) THEN {"Boom"} ELSE {})
    [] e.op = "remove" ->
         LET i == LIndex(d, a[1], NIL, NIL)
         IN Forces(IF i = -1 THEN Err(c, {"ValueError"}) ELSE Ed(LDel(c, i)), {}, L)
    [] e.op = "sort" ->
         IF e.s = "boom" /\ n > 0 THEN Forces(Err(c, {"Boom"}), {}, L)   \* the key function raises
         ELSE IF ~Sortable(d, e.s) THEN Forces(Err(c, {"TypeError"}), {}, L)
         ELSE Forces(Weak(Ed(LSort(d, e.s, a[1] = 1))), {}, L)
    [] e.op = "reverse" -> Forces(Weak(Ed(Rev(c))), {}, L)
    [] e.op = "add" ->
         IF AddErr THEN Err(c, {"TypeError"})
         ELSE Forces(Weak(RObj(c, k, c \o xs)), {}, LzItems(x))
    [] e.op = "radd" ->
         IF AK(x) # "L" THEN Err(c, {"TypeError"})
         ELSE Weak(RObj(c, k, xs \o c))
    [] e.op = "badindex" ->     \* no index at all
         Err(c, {"TypeError"} \cup (CASE e.s \in {"mul", "rmul", "imul"} -> {"ValueError"}
                                     [] e.s \in {"get", "set", "delete", "drop", "pop"} /\ n = 0 -> {"IndexError"}
                                     [] OTHER -> {}))
    [] e.op \in {"mul", "rmul"} -> Forces(Weak(RObj(c, k, LRepeat(c, a[1]))), {}, L)
    [] e.op = "iadd" ->
         IF ~ListLike(AK(x)) THEN Err(c, {"TypeError"})
         ELSE [Forces(Weak([Ret(c \o xs) EXCEPT !.rk = "self"]), {}, LzItems(x)) EXCEPT !.pm = "w"]
    [] e.op = "imul" ->
         Forces([Ret(LRepeat(c, a[1])) EXCEPT !.rk = "self", !.pm = "w"], {}, L)

-----------------------------------------------------------------------------
(* Sets.                                                                   *)
SetOut(e, k, c) ==
  LET n == Len(c)
      a == e.a
      x == e.xs[1]
      xs == ItemsOf(x)
      Ed(c2) == Edit(k, c, c2)
      \* all the arguments one after the other
      Args == [i \in Idx(e.xs) |-> ItemsOf(e.xs[i])]
      ArgLz == UNION {LzItems(e.xs[i]) : i \in Idx(e.xs)}
      ArgEx == LET bad == {i \in Idx(e.xs) : BadEx(Args[i], e.xs[i]) # {}}
               IN IF bad = {} THEN {} ELSE BadEx(Args[MinOf(bad)], e.xs[MinOf(bad)])
      NotIter == \E i \in Idx(e.xs) : ~Iterable(AK(e.xs[i]))
      Fold(Op(_, _)) == FoldLeft(Op, c, Args)
      New(c2) == IF ArgEx # {} THEN Forces(Err(c, ArgEx), {}, ArgLz)
                 ELSE Forces(RObj(c, k, c2), ArgLz, {})
      \* in place: c1 is what a failing bulk edit leaves
      InPl(c2, c1) == IF ArgEx # {} THEN [Forces(Err(c1, ArgEx), {}, ArgLz) EXCEPT !.pm = "s"]
                      ELSE [Forces(Ret(c2), ArgLz, {}) EXCEPT !.pm = "s"]
      g == GoodPart(xs)
      Miss == {i \in Idx(g) : ~SHas(c, g[i]) \/ \E j \in 1..(i - 1) : EqC(g[j]) = EqC(g[i])}
      OpRes(o) == CASE o \in {"or", "ror"} -> SAddAll(c, xs)
                    [] o \in {"and", "rand"} -> SKeep(c, xs)
                    [] o = "sub" -> SDropAll(c, xs)
                    [] o = "rsub" -> SDropAll(Distinct(xs), c)
                    [] OTHER -> SXor(c, xs)
  IN
  IF NotIter THEN Err(c, {"TypeError"}) ELSE
  CASE e.op = "add" ->
         IF ~Hashable(a[1]) THEN Err(c, {"TypeError"}) ELSE Ed(SAdd(c, a[1]))
    [] e.op = "discard" ->
         IF ~Hashable(a[1]) THEN Err(c, {"TypeError"}) ELSE Ed(SDrop(c, a[1]))
    [] e.op = "remove" ->
         IF ~Hashable(a[1]) THEN Err(c, {"TypeError"})
         ELSE IF ~SHas(c, a[1]) THEN Err(c, {"KeyError"}) ELSE Ed(SDrop(c, a[1]))
    [] e.op = "pop" ->
         LET t == IF e.res.k \in {"tok", "tokobj"} /\ SHas(c, e.res.v[1]) THEN e.res.v[1] ELSE c[1]
         IN IF n = 0 THEN Err(c, {"KeyError"})
            ELSE IF k \in Pers
            THEN [RObj(c, k, SDrop(c, t)) EXCEPT !.rk = "tokobj", !.rv = c, !.rm = "sub"]
            ELSE [RTok(SDrop(c, t), 0) EXCEPT !.rv = c, !.rm = "sub", !.pm = "s"]
    [] e.op = "addall" -> 
         IF k \in Pers THEN New(SAddAll(c, xs)) ELSE InPl(SAddAll(c, xs), SAddAll(c, g))
    [] e.op = "discardall" ->
         IF k \in Pers THEN New(SDropAll(c, xs)) ELSE InPl(SDropAll(c, xs), SDropAll(c, g))
    [] e.op = "removeall" ->
         IF Miss # {} /\ ~(x.id = e.r)
         THEN IF k \in Pers THEN Forces(Err(c, {"KeyError"}), {}, ArgLz)
              ELSE [Forces(Err(SDropAll(c, SubSeq(g, 1, MinOf(Miss) - 1)), {"KeyError"}), {}, ArgLz)
                      EXCEPT !.pm = "s"]
         ELSE IF k \in Pers THEN New(SDropAll(c, xs)) ELSE InPl(SDropAll(c, xs), SDropAll(c, g))
    [] e.op = "union" -> New(Fold(LAMBDA acc, s : SAddAll(acc, s)))
    [] e.op = "intersection" -> New(Fold(LAMBDA acc, s : SKeep(acc, s)))
    [] e.op = "difference" -> New(Fold(LAMBDA acc, s : SDropAll(acc, s)))
    [] e.op = "symdiff" -> New(Fold(LAMBDA acc, s : SXor(acc, s)))
    [] e.op \in {"or", "and", "sub", "xor", "ror", "rand", "rsub", "rxor"} ->
         IF ~SetLike(AK(x)) THEN Err(c, {"TypeError"}) ELSE RObj(c, k, OpRes(e.op))
    [] e.op = "update" -> InPl(Fold(LAMBDA acc, s : SAddAll(acc, s)), SAddAll(c, g))
    [] e.op = "intersection_update" -> InPl(Fold(LAMBDA acc, s : SKeep(acc, s)), c)
    [] e.op = "difference_update" -> InPl(Fold(LAMBDA acc, s : SDropAll(acc, s)), SDropAll(c, g))
    [] e.op = "symdiff_update" -> InPl(SXor(c, xs), c)
    [] e.op \in {"ior", "iand", "isub", "ixor"} ->
         IF ~SetLike(AK(x)) THEN Err(c, {"TypeError"})
         ELSE [Ret(CASE e.op = "ior" -> SAddAll(c, xs) [] e.op = "iand" -> SKeep(c, xs)
                     [] e.op = "isub" -> SDropAll(c, xs) [] OTHER -> SXor(c, xs))
                 EXCEPT !.rk = "self", !.pm = "s"]
    [] e.op \in {"isdisjoint", "issubset", "issuperset"} ->
         IF ArgEx # {} THEN Forces(Err(c, ArgEx), {}, ArgLz)
         ELSE Forces(RBool(c, CASE e.op = "isdisjoint" -> SDisj(c, xs)
                                [] e.op = "issubset" -> SSub(c, xs)
                                [] OTHER -> SSub(xs, c)), {}, ArgLz)

-----------------------------------------------------------------------------
(* Mappings.                                                               *)
\* Views: what list(view) gives.
ViewOf(mode, c, d) == CASE mode = "keys" -> Keys(c) [] mode = "values" -> Vals(d) [] OTHER -> d
PairC(p) == <<EqC(p[1]), EqC(p[2])>>
ViewSet(mode, c, d) == IF mode = "keys" THEN EqSet(Keys(c)) ELSE {PairC(d[i]) : i \in Idx(d)}
OtherSet(mode, x) == IF mode = "keys" THEN EqSet(ItemsOf(x)) ELSE {PairC(AC(x)[i]) : i \in Idx(AC(x))}

MapOut(e, k, c) ==
  LET n == Len(c)
      d == Der(k, c)
      L == LzIn(k, c)
      a == e.a
      x == e.xs[1]
      Ed(c2) == Edit(k, c, c2)
      has == MHas(c, a[1])
      LzAt == LzTok(k, MGet(c, a[1]))
      unh == ~Hashable(a[1])
      \* all the pairs of the arguments and keywords of update, one after the other
      AllPairs == FoldLeft(LAMBDA acc, i : acc \o PairsOf(e.xs[i]), <<>>, Ints(Len(e.xs)))
                  \o (IF \E i \in Idx(e.xs) : Raises(e.xs[i]) THEN <<>> ELSE e.kw)
      ArgLz == UNION {LzPairs(e.xs[i]) : i \in Idx(e.xs)}
      BadPair == {i \in Idx(AllPairs) : ~Hashable(AllPairs[i][1])}
      GoodPairs == IF BadPair = {} THEN AllPairs ELSE SubSeq(AllPairs, 1, MinOf(BadPair) - 1)
      xs == ItemsOf(x)
      g == GoodPart(xs)
      Miss == {i \in Idx(g) : ~MHas(c, g[i]) \/ \E j \in 1..(i - 1) : EqC(g[j]) = EqC(g[i])}
      VS == ViewSet(e.s, c, d)
      OS == OtherSet(e.s, x)
      vmay == IF e.s = "keys" THEN {} ELSE L
  IN
  CASE e.op = "getitem" ->
         IF unh THEN Err(c, {"TypeError"})
         ELSE IF ~has THEN Err(c, {"KeyError"})
         ELSE Forces(RTok(c, MGet(d, a[1])), LzAt, {})
    [] e.op = "get" ->
         IF unh THEN Err(c, {"TypeError"})
         ELSE IF ~has THEN RTok(c, Opt(a, 2, NoneTok))
         ELSE Forces(RTok(c, MGet(d, a[1])), LzAt, {})
    [] e.op = "set" -> IF unh THEN Err(c, {"TypeError"}) ELSE Ed(MSet(c, a[1], a[2]))
    [] e.op = "drop" -> IF unh THEN Err(c, {"TypeError"}) ELSE Ed(MDrop(c, a[1]))
    [] e.op = "delete" ->
         IF unh THEN Err(c, {"TypeError"})
         ELSE IF ~has THEN Err(c, {"KeyError"}) ELSE Ed(MDrop(c, a[1]))
    [] e.op = "pop" ->
         IF unh THEN Err(c, {"TypeError"})
         ELSE IF ~has
         THEN IF Len(a) < 2 THEN Err(c, {"KeyError"})
              ELSE IF k \in Pers THEN [RObj(c, k, c) EXCEPT !.rk = "tokobj", !.rv = <<a[2]>>]
              ELSE RTok(c, a[2])
         ELSE IF k \in Pers
         THEN Forces([RObj(c, k, MDrop(c, a[1])) EXCEPT !.rk = "tokobj", !.rv = <<MGet(d, a[1])>>], LzAt, {})
         ELSE Forces([RTok(MDrop(c, a[1]), MGet(d, a[1])) EXCEPT !.pm = "m"], LzAt, {})
    [] e.op = "popitem" ->
         LET kt == IF e.res.k \in {"pair", "pairobj"} /\ MHas(c, e.res.v[1]) THEN e.res.v[1] ELSE c[1][1]
             must == LzTok(k, MGet(c, kt))
         IN IF n = 0 THEN Err(c, {"KeyError"})
            ELSE IF k \in Pers
            THEN Forces([RObj(c, k, MDrop(c, kt)) EXCEPT !.rk = "pairobj", !.rv = d, !.rm = "subm"], must, {})
            ELSE Forces([Ret(MDrop(c, kt)) EXCEPT !.rk = "pair", !.rv = d, !.rm = "subm", !.pm = "m"], must, {})
    [] e.op = "setdefault" ->
         LET v == Opt(a, 2, NoneTok)
             c2 == IF has THEN c ELSE Append(c, <<a[1], v>>)
         IN IF unh THEN Err(c, {"TypeError"})
            ELSE IF k \in Pers THEN RObj(c, k, c2)
            ELSE Forces([RTok(c2, IF has THEN MGet(d, a[1]) ELSE IF k \in LazyK THEN DT(v) ELSE v)
                           EXCEPT !.pm = "m"],
                        IF has THEN LzAt ELSE LzTok(k, v), {})
    [] e.op = "update" ->
         LET ex == IF BadPair # {} THEN {"TypeError"}
                   ELSE IF \E i \in Idx(e.xs) : Raises(e.xs[i]) THEN {"Boom"} ELSE {}
         IN IF \E i \in Idx(e.xs) : AK(e.xs[i]) \in {"O", "BI"} THEN Err(c, {"TypeError"})
            ELSE IF \E i \in Idx(e.xs) : AK(e.xs[i]) = "PB" THEN Err(c, {"ValueError"})
            ELSE Stop(Forces(Weak(Ed(MSetAll(c, GoodPairs))), {}, ArgLz), k, c, ex)
    [] e.op = "setall" ->
         LET m == Min2(Len(xs), Len(ItemsOf(e.xs[2])))
             vs == ItemsOf(e.xs[2])
             s == [i \in 1..m |-> <<xs[i], vs[i]>>]
         IN IF \E i \in 1..m : ~Hashable(xs[i]) THEN Err(c, {"TypeError"})
            ELSE Forces(Weak(Ed(MSetAll(c, s))), {}, LzItems(x) \cup LzItems(e.xs[2]))
    [] e.op \in {"dropall", "deleteall"} /\ ~Iterable(AK(x)) -> Err(c, {"TypeError"})
    [] e.op = "dropall" ->
         IF BadEx(xs, x) # {} THEN Forces(Err(c, BadEx(xs, x)), {}, LzItems(x))
         ELSE Forces(Ed(MDropAll(c, xs)), {}, LzItems(x))
    [] e.op = "deleteall" ->
         IF Miss # {} THEN Forces(Err(c, {"KeyError"}), {}, LzItems(x))
         ELSE IF BadEx(xs, x) # {} THEN Forces(Err(c, BadEx(xs, x)), {}, LzItems(x))
         ELSE Forces(Ed(MDropAll(c, xs)), {}, LzItems(x))
    [] e.op = "vlist" ->
         IF e.s = "items" THEN Forces(RPairs(c, d), L, {})
         ELSE Forces([RToks(c, ViewOf(e.s, c, d)) EXCEPT !.rm = IF e.s = "keys" THEN "e" ELSE "x"],
                     vmay, {})
    [] e.op = "vrev" ->
         IF e.s = "items" THEN Forces(RPairs(c, Rev(d)), L, {})
         ELSE Forces([RToks(c, Rev(ViewOf(e.s, c, d))) EXCEPT !.rm = IF e.s = "keys" THEN "e" ELSE "x"],
                     vmay, {})
    [] e.op = "rev" -> [RToks(c, Rev(Keys(c))) EXCEPT !.rm = "e"]
    [] e.op = "vlen" -> RInt(c, n)
    [] e.op = "vcontains" ->
         IF e.s = "keys" THEN IF unh THEN Err(c, {"TypeError"}) ELSE RBool(c, has)
         ELSE IF e.s = "values"
         THEN Forces(RBool(c, \E i \in Idx(d) : Same(d[i][2], a[1])), {}, L)
         ELSE IF unh THEN Err(c, {"TypeError"})
         ELSE Forces(RBool(c, has /\ Same(MGet(d, a[1]), a[2])), {}, IF has THEN LzAt ELSE {})
    \* the text of a view: the text of its dict, and just the keys for keys() of a pdict
    [] e.op = "vrepr" ->
         IF e.s = "keys" /\ k \in Pers
         THEN RStr(c, {"{" \o Joined([i \in Idx(c) |-> Repr(c[i][1])]) \o "}"})
         ELSE RStr(c, TextOf(k, c, FALSE))
    \* looking in items() for something that is no pair (a list, a triple, ..)
    [] e.op = "vodd" -> Forces(RBool(c, FALSE), {}, {})
    [] e.op \in {"vand", "vor", "vsub", "vxor", "vrsub"} ->
         LET S == CASE e.op = "vand" -> VS \cap OS [] e.op = "vor" -> VS \cup OS
                    [] e.op = "vsub" -> VS \ OS [] e.op = "vrsub" -> OS \ VS
                    [] OTHER -> (VS \ OS) \cup (OS \ VS)
         IN Forces([Ret(c) EXCEPT !.rk = IF e.s = "keys" THEN "toks" ELSE "pairs", !.rv = S,
                                    !.rm = IF e.s = "keys" THEN "S" ELSE "SP"],
                   {}, vmay)
    [] e.op \in {"veq", "vle", "vlt", "vge", "vgt", "vdisj"} ->
         Forces(RBool(c, CASE e.op = "veq" -> VS = OS [] e.op = "vle" -> VS \subseteq OS
                           [] e.op = "vlt" -> VS \subseteq OS /\ VS # OS
                           [] e.op = "vge" -> OS \subseteq VS
                           [] e.op = "vgt" -> OS \subseteq VS /\ VS # OS
                           [] OTHER -> VS \cap OS = {}), {}, vmay)

-----------------------------------------------------------------------------
(* Constructors: e.s is the kind, e.xs the positional arguments.           *)
ConMode(k, kx) ==
  IF k \in SetK THEN "s" ELSE IF k \in MapK THEN "m"
  ELSE IF kx \in SetK \cup {"S", "F"} THEN "b" ELSE "x"
ConOut(e) ==
  LET k == e.s
      x == e.xs[1]
      kx == AK(x)
      \* lazy to lazy: nothing is evaluated
      keep == k \in LazyK /\ kx \in LazyK /\ (k \in MapK) = (kx \in MapK)
      items == IF keep THEN AC(x) ELSE ItemsOf(x)
      pairs == (IF keep THEN AC(x) ELSE PairsOf(x)) \o e.kw
      BadPair == \E i \in Idx(pairs) : ~Hashable(pairs[i][1])
      \* an empty object of the very type may be returned as it is
      New(c) == LET o == [RObj(<<>>, k, c) EXCEPT !.om = ConMode(k, kx)]
                IN IF kx = k THEN o ELSE Canon(o)
  IN
  IF Len(e.xs) > 1 \/ (e.kw # <<>> /\ k \notin MapK) THEN Err(<<>>, {"TypeError"})
  ELSE IF Len(e.xs) = 0
  THEN Canon(RObj(<<>>, k, IF k \in MapK THEN MSetAll(<<>>, e.kw) ELSE <<>>))
  ELSE IF kx = "O" THEN Err(<<>>, {"TypeError"})
  ELSE IF k \in MapK
  THEN IF kx = "BI" THEN Err(<<>>, {"TypeError"})
       ELSE IF kx = "PB" THEN Err(<<>>, {"ValueError"})
       ELSE IF BadPair THEN Err(<<>>, {"TypeError"})
       ELSE IF Raises(x) THEN Err(<<>>, {"Boom"})
       ELSE Forces(New(MSetAll(<<>>, pairs)), IF keep THEN {} ELSE LzPairs(x), {})
  ELSE IF k \in SetK /\ BadAt(items) # {} THEN Forces(Err(<<>>, {"TypeError"}), {}, LzItems(x))
  ELSE IF Raises(x) THEN Err(<<>>, {"Boom"})
  ELSE Forces(New(IF k \in SetK THEN Distinct(items) ELSE items), IF keep THEN {} ELSE LzItems(x), {})

-----------------------------------------------------------------------------
(* Iterators.  Creating one takes its first item; the iterator object      *)
(* remembers what it has to deliver.                                       *)
IterItems(mode, k, c) ==   \* raw entries, in the order of delivery
  CASE mode \in {"fwd", "keys", "values", "items"} -> c
    [] OTHER -> Rev(c)
ItKind(mode, k) ==
  IF k \in MapK /\ mode \in {"fwd", "rev", "keys", "rkeys"} THEN "key"
  ELSE IF k \in MapK /\ mode \in {"values", "rvalues"} THEN "val"
  ELSE IF k \in MapK THEN "item" ELSE "el"
ItRes(c, it, raw) ==
  CASE it = "key" -> [RTok(c, raw[1]) EXCEPT !.rm = "e"]
    [] it = "val" -> RTok(c, raw[2])
    [] it = "item" -> [Ret(c) EXCEPT !.rk = "pair", !.rv = <<raw>>, !.rm = "subm"]
    [] OTHER -> RTok(c, raw)
IterOut(e, k, c) ==
  LET s == IterItems(e.s, k, c)
      it == ItKind(e.s, k)
      d == Der(k, s)
      eager == e.s \in {"rvalues", "ritems"}  \* may be computed as a whole
  IN IF Len(c) = 0 THEN [Ret(c) EXCEPT !.rk = "stop"]
     ELSE [Forces(ItRes(c, it, d[1]),
                  IF it = "key" THEN {} ELSE LzTok(k, RawAt(k, s, 1)),
                  IF eager THEN LzIn(k, s) ELSE {}) EXCEPT !.ok = "it"]
\* A pending iterator: the receiver e.r is the iterator.
NextOut(e, o) ==
  LET src == heap[o.src]
      k == src.k
      it == o.it
      snap == o.c                \* raw entries at creation
      p == o.pos
      raw == snap[p]
      key == raw[1]
      \* a dict's values are read when they are delivered
      cur == IF k \in MapK /\ MHas(src.c, key) /\ o.mode \notin {"rvalues", "ritems"}
             THEN <<key, MGet(src.c, key)>> ELSE raw
      der == IF k \in MapK THEN Der(k, <<cur>>)[1] ELSE IF k \in LazyK THEN DT(raw) ELSE raw
      may == IF it = "key" THEN {} ELSE LzTok(k, IF k \in MapK THEN cur[2] ELSE raw)
      moved == IF k \in MapK THEN src.ver # o.ver ELSE src.mv # o.mv
      whole == o.mode \in {"rev", "rkeys", "rvalues", "ritems"} /\ k \in MapK
  IN IF p > Len(snap)
     THEN [Ret(<<>>) EXCEPT !.rk = "stop", !.opt = IF moved THEN {"RuntimeError"} ELSE {}]
     ELSE IF k \in {"td", "tld"} /\ moved /\ ~whole THEN Err(<<>>, {"RuntimeError"})
     ELSE [Forces(ItRes(<<>>, it, der), {}, may) EXCEPT
             !.opt = IF moved /\ k \in Trans THEN {"RuntimeError"} ELSE {}]

-----------------------------------------------------------------------------
(* Lazy values by themselves.                                              *)
LazyOut(e) ==
  LET t == e.a[1]
  IN CASE e.op \in {"lzcall", "unlazy"} ->
            Forces(RTok(<<>>, DT(t)), IF IsLazy(t) THEN Close({-t}) ELSE {}, {})
       [] e.op = "lzready" -> RBool(<<>>, IsReady(t))
       \* the function and its arguments are kept as long as they are needed, and no longer
       [] e.op = "lzheld" -> RBool(<<>>, ~IsReady(t))
       [] e.op = "lznew" -> Err(<<>>, {"TypeError"})      \* of something that is no function

-----------------------------------------------------------------------------
(* One call: the outcome of event e in the current state.                  *)
Outcome(e) ==
     IF e.op = "con" THEN ConOut(e)
     ELSE IF e.r = 0 THEN LazyOut(e)
     ELSE LET o == heap[e.r] IN
          IF e.op = "next" THEN NextOut(e, o)
          ELSE IF e.op = "iter" THEN IterOut(e, o.k, o.c)
          ELSE IF e.op \in CommonOps
          THEN LET r == CommonOut(e, o.k, o.c)
               IN IF e.op = "list" /\ o.k \in SetK THEN [r EXCEPT !.rm = "s"]
                  ELSE IF e.op = "list" /\ o.k \in MapK THEN [r EXCEPT !.rm = "e"] ELSE r
          ELSE IF o.k \in ListK THEN ListOut(e, o.k, o.c)
          ELSE IF o.k \in SetK THEN SetOut(e, o.k, o.c)
          ELSE MapOut(e, o.k, o.c)

\* Operations that edit a transient in place.
Mutators == {"set", "delete", "pop", "insert", "append", "prepend", "extend", "remove", "sort",
             "reverse", "iadd", "imul", "clear", "add", "discard", "addall", "discardall",
             "removeall", "update", "intersection_update", "difference_update", "symdiff_update",
             "ior", "iand", "isub", "ixor", "popitem", "setdefault"}
\* Edits that keep what they did before they failed.
Bulk == {"extend", "iadd", "addall", "discardall", "removeall", "update", "intersection_update",
         "difference_update", "symdiff_update", "ior", "iand", "isub", "ixor"}

\* The receiver after the call, with contents c2
Touched(e, o, c2) ==
  IF o.k = "it" THEN [o EXCEPT !.pos = @ + 1]
  ELSE [o EXCEPT !.c = c2,
                 !.ver = IF o.k \in MapK /\ [i \in Idx(c2) |-> EqC(c2[i][1])] # [i \in Idx(o.c) |-> EqC(o.c[i][1])]
                         THEN @ + 1 ELSE @,
                 !.mv = IF o.k \in Trans /\ e.op \in Mutators THEN @ + 1 ELSE @]
NewIter(e, o) ==
  [k |-> "it", c |-> IterItems(e.s, o.k, o.c), src |-> e.r, it |-> ItKind(e.s, o.k),
   mode |-> e.s, pos |-> 2, ver |-> o.ver, mv |-> o.mv]
=============================================================================
