-------------------------------- MODULE MCOne --------------------------------
(***************************************************************************)
(* Single calls of the state machine Collections, exhaustively over small  *)
(* arguments (Init chooses an instance, there are no steps):               *)
(*                                                                         *)
(* "cmp"   every pair of small collections of a family, of every two       *)
(*         kinds, native ones too: equality, order, hash, use as dict keys *)
(* "con"   every kind built from every kind of source                      *)
(* "str"   text forms around the limit of 60 characters                    *)
(* "lazy"  every operation on every combination of evaluated, waiting,     *)
(*         failing and shared lazy items                                   *)
(*                                                                         *)
(* Checked: the laws of equality and order, that hashes are decided by     *)
(* what is equal, and that the text that the library builds part by part   *)
(* is the one that the specification describes.  Each instance is printed  *)
(* as scenes for the real library.                                         *)
(***************************************************************************)
EXTENDS Collections, Scenes

CONSTANTS Fam, Base, OneIn, Seed,
          Bug      \* demonstration: "" or a wrong semantics that the laws reject
VARIABLES inst
vars == <<inst, heap, lz>>

A0 == 100010
B0 == 100011
R0 == 100012
SeqsOver(S, n) == UNION {[1..m -> S] : m \in 0..n}
Subsets(S) == {SetToSeq(x) : x \in SUBSET S}
ConN(k, nk, c, lab) == [NoCall EXCEPT !.op = "con", !.s = k, !.xs = <<Nat_(nk, c)>>, !.as = lab]
ConO(k, o, lab) == [NoCall EXCEPT !.op = "con", !.s = k, !.xs = <<Obj_(o)>>, !.as = lab]
TheList == {"pl", "tl", "ll", "tll"}

-----------------------------------------------------------------------------
(* cmp.  Tokens 1, 2, 3 are 0, 1, 2; token 9 is True, which equals 1.      *)
NanT == MinOf({t \in DOMAIN UPo : UPo[t] = 1})   \* a NaN: neither less nor greater than any number
LConts == SeqsOver({1, 2, 9}, 2) \cup {<<1, 2, 1>>, <<1, 2, 3>>, <<2, 1, 9>>, <<9, 1, 2>>, <<NanT>>, <<1, NanT>>}
SConts == Subsets({1, 2, 3}) \cup {<<9>>, <<9, 1>>, <<3, 9, 1>>, <<4>>, <<1, 2, 3, 4>>}
MConts == {<<>>} \cup {<<<<k, v>>>> : k \in {1, 2, 9}, v \in {1, 2, 9}}
          \cup {<<<<k, v>>, <<j, w>>>> : <<k, j>> \in {<<1, 2>>, <<2, 1>>, <<9, 1>>, <<3, 1>>}, v \in {1, 2}, w \in {1, 9}}
ContsOf(k) == IF k \in ListK THEN LConts ELSE IF k \in SetK THEN SConts ELSE MConts
NatOf(k) == IF k \in ListK THEN {"L"} ELSE IF k \in SetK THEN {"S", "F", "V"} ELSE {"D"}
KindsOf(k) == IF k \in ListK THEN ListK ELSE IF k \in SetK THEN SetK ELSE MapK
Src(k) == IF k \in MapK THEN "P" ELSE "L"
\* Three ways of making contents c: at once, and in two edits
Ways(k, c, lab) ==
  {<<ConN(k, Src(k), c, lab)>>}
  \cup (IF Len(c) = 0 \/ k \notin Pers THEN {}
        ELSE LET n == Len(c)
                 add == IF k \in ListK THEN CallA("append", lab, <<c[n]>>)
                        ELSE IF k \in SetK THEN CallA("add", lab, <<c[n]>>)
                        ELSE CallA("set", lab, c[n])
                 take == IF k \in ListK THEN CallA("delete", lab, <<0>>)
                         ELSE IF k \in SetK THEN CallA("discard", lab, <<5>>) ELSE CallA("drop", lab, <<5>>)
                 more == IF k \in ListK THEN <<5>> \o c ELSE IF k \in SetK THEN <<5>> \o c ELSE <<<<5, 1>>>> \o c
             IN {<<ConN(k, Src(k), SubSeq(c, 1, n - 1), lab), As(add, lab)>>,
                 <<ConN(k, Src(k), more, lab), As(take, lab)>>})
CmpCalls(k, q, c) ==
  LET b == IF q \in CollK THEN Obj_(B0) ELSE Nat_(q, c)
      both == k \in Pers /\ q \in Pers
  IN <<CallX("eq", A0, <<b>>)>>
     \o (IF k \in MapK THEN <<>>
         ELSE [i \in 1..8 |-> [CallSX("cmp", A0, <<"lt", "le", "gt", "ge">>[((i - 1) % 4) + 1], <<b>>)
                                 EXCEPT !.a = <<(i - 1) \div 4>>]])
     \o (IF both THEN <<Call0("hash", A0), Call0("hash", B0), CallX("dictkey", A0, <<b>>), CallX("eq", A0, <<b>>)>> ELSE <<>>)
     \o (IF k \in SetK THEN [i \in 1..3 |-> CallX(<<"isdisjoint", "issubset", "issuperset">>[i], A0, <<b>>)] ELSE <<>>)
CmpLines(i) ==   \* one line for each way of making the first
  LET others == SetToSeq(ContsOf(i.k))
      part(c) == (IF i.q \in CollK
                  THEN LET w == Ways(i.q, c, B0) IN SetToSeq(w)[1 + (Mix(Seed, Len(c)) % Cardinality(w))]
                  ELSE <<>>)
                 \o CmpCalls(i.k, i.q, c)
  IN {w \o FlattenSeq([j \in Idx(others) |-> part(others[j])]) : w \in Ways(i.k, i.c, A0)}
CmpInsts == {[k |-> k, q |-> q, c |-> c] : k \in KindsOf(Base), q \in KindsOf(Base) \cup NatOf(Base), c \in ContsOf(Base)}

LCmpX(c, d) == IF Bug = "length" THEN (IF Len(c) < Len(d) THEN "lt" ELSE IF Len(c) > Len(d) THEN "gt" ELSE LCmp(c, d))
               ELSE LCmp(c, d)
CmpLaws(i) ==
  LET S == ContsOf(i.k)
      a == i.c
      eq(x, y) == SameContents(i.k, x, i.k, y)
      lt(x, y) == LCmpX(x, y) = "lt"
  IN /\ eq(a, a)
     /\ \A b \in S : /\ eq(a, b) = eq(b, a)
                     /\ eq(a, b) = (CanonOf(i.k, a) = CanonOf(i.k, b))
                     /\ \A c \in S : eq(a, b) /\ eq(b, c) => eq(a, c)
     /\ IF i.k \in ListK
        THEN \A b \in S : /\ LCmpX(a, b) = "eq" <=> eq(a, b)
                          /\ lt(a, b) <=> LCmpX(b, a) = "gt"
                          /\ \A c \in S : lt(a, b) /\ lt(b, c) => lt(a, c)
                          \* lexicographic: decided by the first difference
                          /\ Len(a) > 0 /\ Len(b) > 0 /\ Cmp(a[1], b[1]) # "eq" => LCmpX(a, b) = Cmp(a[1], b[1])
        ELSE i.k \in SetK => \A b \in S : /\ SSub(a, b) /\ SSub(b, a) <=> eq(a, b)
                                          /\ SDisj(a, b) <=> SKeep(a, b) = <<>>
                                          /\ SSub(SKeep(a, b), a) /\ SSub(a, SAddAll(a, b))
                                          /\ SEq(SXor(a, b), SDropAll(SAddAll(a, b), SKeep(a, b)))

-----------------------------------------------------------------------------
(* con.                                                                    *)
ItemSrcs == {"L", "T", "G", "I", "S", "F", "V", "D"} \cup CollK
PairSrcs == {"P", "PL", "GP", "D", "MP"} \cup MapK
BadSrcs == {"O", "X", "XP", "PB", "BI"}
ConConts(k, q) ==
  IF q \in MapK \cup {"P", "PL", "GP", "D", "MP", "XP"}
  THEN {<<>>, <<<<2, 1000>>>>, <<<<1, 1000>>, <<2, 1001>>, <<3, 1000>>>>}
       \cup (IF q \in {"D", "MP"} THEN {} ELSE {<<<<1, 1000>>, <<2, 1001>>, <<1, 1002>>, <<9, 1003>>>>})
       \cup (IF k \in {"ld", "tld", "td"} /\ q \in {"ld", "tld", "D", "P"} THEN {<<<<1, -1>>, <<2, 1001>>, <<3, -2>>>>} ELSE {})
  ELSE {<<>>, <<2>>, <<3, 1, 2>>, <<3, 1, 2, 4, 5, 6, 7>>}
       \cup (IF q \in {"S", "F", "V"} \cup SetK THEN {} ELSE {<<1, 2, 1, 9, 3, 2>>})
       \cup (IF q \in {"ll", "tll"} THEN {<<-1, 1, -2>>, <<-1>>} ELSE {})
ConAll == UNION {UNION {{[k |-> k, q |-> q, c |-> c, kw |-> kw] :
                          c \in 1..(IF q \in {"O", "PB", "BI"} THEN 1 ELSE Cardinality(ConConts(k, q))),
                          kw \in (IF k \in MapK THEN {<<>>, <<<<24, 1005>>>>} ELSE {<<>>})} :
                         q \in (IF k \in MapK THEN PairSrcs \cup {"O", "XP", "PB", "BI"} ELSE ItemSrcs \cup {"O", "X"})} :
                  k \in (IF Base = "pl" THEN ListK ELSE IF Base = "ps" THEN SetK ELSE MapK)}
EditOf(k, lab) ==
  IF k \in ListK THEN <<CallA("append", lab, <<1040>>), CallA("set", lab, <<0, 1041>>), CallA("prepend", lab, <<1042>>)>>
  ELSE IF k \in SetK THEN <<CallA("add", lab, <<8>>), CallA("discard", lab, <<1>>), CallA("discard", lab, <<2>>)>>
  ELSE <<CallA("set", lab, <<8, 1040>>), CallA("set", lab, <<2, 1041>>), CallA("pop", lab, <<1, 1>>)>>
ContOf(i) == IF i.q \in {"O", "PB", "BI"} THEN <<>> ELSE SetToSeq(ConConts(i.k, i.q))[i.c]
ConLine(i) ==
  (IF i.q \in CollK
   THEN <<ConN(i.q, Src(i.q), ContOf(i), A0), [ConO(i.k, A0, R0) EXCEPT !.kw = i.kw]>>
        \o (IF i.q \in Trans THEN EditOf(i.q, A0) ELSE <<>>)
   ELSE <<[ConN(i.k, i.q, ContOf(i), R0) EXCEPT !.kw = i.kw]>>)
  \o (IF i.q \in BadSrcs THEN <<>>
      ELSE <<Call0("len", R0), Call0("list", R0)>>
           \o (IF i.k \in Trans THEN EditOf(i.k, R0) ELSE <<Call0("transient", R0), Call0("hash", R0)>>))

-----------------------------------------------------------------------------
(* str.  An instance is the lengths of the parts.                          *)
Fill == 3..62
StrInsts ==
  {[b |-> b, f |-> f, a |-> a] : b \in {<<>>, <<4>>, <<1, 4>>, <<0>>, <<0, 0>>}, f \in Fill, a \in SeqsOver({1, 4, 28}, 3)}
Vec(i) == i.b \o <<i.f>> \o i.a
TotalTo(v, m) == FoldLeft(LAMBDA acc, p : acc + p, 0, SubSeq(v, 1, m)) + 2 * Max2(m - 1, 0)
StrGood(i) == TotalTo(Vec(i), Len(i.b) + 1) \in 49..63
\* the library's way: parts are added until they overshoot, then taken away
Overshoot(v) == {m \in Idx(v) : TotalTo(v, m) > 60}
RECURSIVE Shrink(_, _)
Shrink(v, m) == IF m > 0 /\ (IF Bug = "fit" THEN TotalTo(v, m) > 60 ELSE TotalTo(v, m) + 5 > 60) THEN Shrink(v, m - 1) ELSE m
ByParts(v) == IF Overshoot(v) = {} THEN <<Len(v), FALSE>> ELSE <<Shrink(v, MinOf(Overshoot(v))), TRUE>>
ByText(v) ==   \* the specification's: the longest prefix that fits with the ellipsis
  IF TotalTo(v, Len(v)) <= 60 THEN <<Len(v), FALSE>>
  ELSE LET fits == {m \in Idx(v) : TotalTo(v, m) + 5 <= 60}
       IN <<IF fits = {} THEN 0 ELSE MaxOf(fits), TRUE>>
StrLaws(i) == ByParts(Vec(i)) = ByText(Vec(i))
\* values of a given length of repr; j makes them distinct
TextTok(n, j) ==
  CASE n = 1 -> 1 + (j % 8)
    [] n = 4 -> 1000 + j
    [] OTHER -> LET S == {t \in 1..Len(URp) : Len(URp[t]) = n /\ OrdC(t) = 0 /\ Hashable(t)}
                IN IF S = {} THEN 0 ELSE LET s == SetToSortSeq(S, <) IN s[1 + (j % Len(s))]
StrToks(v) == [j \in Idx(v) |-> TextTok(v[j], j)]
\* as a dict: "1000: x" takes six characters before the value
StrPairs(v) == [j \in Idx(v) |-> IF v[j] >= 9 /\ TextTok(v[j] - 6, j) # 0 THEN <<1000 + j, TextTok(v[j] - 6, j)>>
                                 ELSE <<j, 9 - j>>]
StrLine(i) ==
  LET v == Vec(i)
      s == StrToks(v)
  IN IF 0 \in RangeOf(s) THEN <<>>
     ELSE IF Base \in MapK
     THEN <<ConN(Base, "P", StrPairs(v), A0), Call0("str", A0), Call0("repr", A0)>>
     ELSE IF Base \in SetK /\ Cardinality(RangeOf(s)) < Len(s) THEN <<>>
     ELSE <<ConN(Base, "L", s, A0), Call0("str", A0), Call0("repr", A0)>>

-----------------------------------------------------------------------------
(* lazy.  The states of the items: plain, waiting, ready, failing (once),  *)
(* the same lazy object as the first item, depending on the first item.    *)
States == {"p", "w", "r", "f", "s", "d"}
LazyInsts == {[v |-> v, o |-> o] : v \in {x \in [1..3 -> States] : x[1] \notin {"s", "d"} /\ x[3] # "f"}, o \in 1..80}
LzRow(v, i) == [v |-> 1000 + i, f |-> IF v[i] = "f" THEN 1 ELSE 0, d |-> IF v[i] = "d" /\ v[1] \in {"w", "r"} THEN <<1>> ELSE <<>>]
LzVal(v, i) == CASE v[i] = "p" -> 1000 + i [] v[i] = "s" -> (IF v[1] = "p" THEN 1001 ELSE -1) [] OTHER -> -i
Value(v, i) == IF v[i] = "s" THEN 1001 ELSE 1000 + i
LzConts(v) == IF Base \in MapK THEN [i \in 1..3 |-> <<i, LzVal(v, i)>>] ELSE [i \in 1..3 |-> LzVal(v, i)]
LA(op, a) == CallA(op, A0, a)
ListOps(v) ==
  LET w == [i \in 1..3 |-> Value(v, i)]
  IN <<LA("get", <<0>>), LA("get", <<1>>), LA("get", <<-1>>), LA("slice", <<1, NIL, NIL>>), LA("slice", <<NIL, NIL, -1>>),
       LA("list", <<>>), LA("rev", <<>>), CallS("iter", A0, "fwd"), CallS("iter", A0, "rev"),
       LA("contains", <<w[2]>>), LA("contains", <<2>>), LA("index", <<w[2]>>), LA("index", <<w[3], 1>>), LA("index", <<2>>),
       LA("count", <<w[1]>>), CallX("eq", A0, <<Nat_("L", w)>>), CallX("eq", A0, <<Nat_("L", <<w[1]>>)>>),
       CallX("eq", A0, <<Obj_(A0)>>), [CallSX("cmp", A0, "lt", <<Nat_("L", w)>>) EXCEPT !.a = <<0>>],
       LA("str", <<>>), LA("repr", <<>>), LA("json", <<>>), LA("pickle", <<4>>), LA("xpickle", <<2>>),
       LA("copycopy", <<>>), LA("deepcopy", <<>>), LA("copy", <<>>), LA("len", <<>>), LA("bool", <<>>),
       LA("set", <<1, 1010>>), LA("set", <<0, LzVal(v, 2)>>), LA("delete", <<1>>), LA("delete", <<0>>),
       LA("pop", <<>>), LA("pop", <<0>>), LA("pop", <<1>>), LA("insert", <<1, 1010>>), LA("append", <<LzVal(v, 1)>>), LA("prepend", <<1010>>),
       CallX("extend", A0, <<Nat_("L", <<LzVal(v, 1), 1010>>)>>), CallX("extend", A0, <<Obj_(A0)>>),
       LA("remove", <<w[2]>>), LA("remove", <<2>>), CallSA("sort", A0, "none", <<0>>), CallSA("sort", A0, "const", <<1>>),
       LA("reverse", <<>>), CallX("add", A0, <<Nat_("L", <<1010, LzVal(v, 2)>>)>>), CallX("radd", A0, <<Nat_("L", <<1010>>)>>),
       LA("mul", <<2>>), LA("rmul", <<0>>), CallX("add", A0, <<Obj_(A0)>>),
       ConO("pl", A0, B0), ConO("tl", A0, B0), ConO("ll", A0, B0), ConO("tll", A0, B0), ConO("ps", A0, B0), ConO("ts", A0, B0),
       LA("clear", <<>>), LA("getlazy", <<1>>), LA("getlazy", <<5>>)>>
     \o (IF Base \in Pers
         THEN <<LA("hash", <<>>), LA("transient", <<>>), LA("drop", <<1>>), LA("is_lazy", <<0>>), LA("is_ready", <<0>>),
                LA("is_lazy", <<1>>), LA("is_ready", <<1>>), LA("ready_all", <<>>), LA("hold", <<>>), LA("holdlazy", <<>>),
                LA("is_ready", <<7>>)>>
         ELSE <<LA("persistent", <<>>), CallX("iadd", A0, <<Nat_("L", <<LzVal(v, 1)>>)>>), LA("imul", <<2>>)>>)
MapOps(v) ==
  LET w == [i \in 1..3 |-> <<i, Value(v, i)>>]
  IN <<LA("getitem", <<1>>), LA("getitem", <<2>>), LA("getitem", <<5>>), LA("get", <<2>>), LA("get", <<2, 1010>>), LA("get", <<5, 1010>>),
       LA("list", <<>>), LA("rev", <<>>), LA("contains", <<2>>), LA("contains", <<5>>),
       CallSA("vlist", A0, "keys", <<>>), CallSA("vlist", A0, "values", <<>>), CallSA("vlist", A0, "items", <<>>),
       CallSA("vrev", A0, "keys", <<>>), CallSA("vrev", A0, "values", <<>>), CallSA("vrev", A0, "items", <<>>),
       CallSA("vlen", A0, "values", <<>>), CallSA("vlen", A0, "items", <<>>),
       CallSA("vcontains", A0, "keys", <<2>>), CallSA("vcontains", A0, "values", <<w[2][2]>>), CallSA("vcontains", A0, "values", <<2>>),
       CallSA("vcontains", A0, "items", <<2, w[2][2]>>), CallSA("vcontains", A0, "items", <<2, 3>>), CallSA("vcontains", A0, "items", <<5, 3>>), CallSA("vodd", A0, "items", <<2, 3>>),
       CallS("iter", A0, "fwd"), CallS("iter", A0, "keys"), CallS("iter", A0, "values"), CallS("iter", A0, "items"),
       CallS("iter", A0, "rvalues"), CallS("iter", A0, "ritems"),
       CallX("eq", A0, <<Nat_("D", w)>>), CallX("eq", A0, <<Nat_("D", <<w[1]>>)>>), CallX("eq", A0, <<Nat_("D", <<<<5, 6>>, <<6, 7>>, <<7, 8>>>>)>>),
       LA("str", <<>>), LA("repr", <<>>), LA("json", <<>>), LA("pickle", <<4>>), LA("xpickle", <<2>>),
       LA("copycopy", <<>>), LA("deepcopy", <<>>), LA("copy", <<>>), LA("len", <<>>), LA("bool", <<>>),
       LA("set", <<2, 1010>>), LA("set", <<1, LzVal(v, 2)>>), LA("set", <<5, 1010>>), LA("delete", <<1>>), LA("delete", <<5>>),
       LA("pop", <<2>>), LA("pop", <<2, 5>>), LA("pop", <<5, 1010>>), LA("pop", <<5>>), LA("popitem", <<>>),
       LA("setdefault", <<2, 1010>>), LA("setdefault", <<5, 1010>>), LA("setdefault", <<1>>),
       CallX("update", A0, <<Nat_("D", <<<<2, 1010>>, <<5, LzVal(v, 1)>>>>)>>), CallX("update", A0, <<Nat_("P", <<<<1, 1010>>>>)>>),
       ConO("pd", A0, B0), ConO("td", A0, B0), ConO("ld", A0, B0), ConO("tld", A0, B0), ConO("ps", A0, B0), ConO("pl", A0, B0), ConO("ll", A0, B0),
       LA("clear", <<>>), LA("getlazy", <<2>>), LA("getlazy", <<5>>), LA("is_lazy", <<2>>), LA("is_ready", <<2>>), LA("is_ready", <<1>>),
       LA("is_lazy", <<5>>), LA("ready_all", <<>>), LA("hold", <<>>), LA("holdlazy", <<>>)>>
     \o (IF Base \in Pers
         THEN <<LA("hash", <<>>), LA("transient", <<>>), LA("drop", <<2>>),
                CallX("dropall", A0, <<Nat_("L", <<2, 5>>)>>), CallX("deleteall", A0, <<Nat_("L", <<2, 1>>)>>),
                CallX("setall", A0, <<Nat_("L", <<2, 6>>), Nat_("L", <<1010, 1011>>)>>)>>
         ELSE <<LA("persistent", <<>>)>>)
LazyOps(v) == IF Base \in MapK THEN MapOps(v) ELSE ListOps(v)
ReadAt(i) == IF Base \in MapK THEN LA("getitem", <<i>>) ELSE LA("get", <<i - 1>>)
\* what may not be tried: a bulk edit with a failing value has no one outcome
LazyGood(i) == i.o <= Len(LazyOps(i.v))
LazyLine(i) ==
  LET op == LazyOps(i.v)[i.o]
      made == ConN(Base, Src(Base), LzConts(i.v), A0)
      ready == SetToSeq({ReadAt(j) : j \in {q \in 1..3 : i.v[q] = "r"}})
      more == IF op.op \in {"iter"} THEN <<[Call0("next", B0) EXCEPT !.s = op.s], [Call0("next", B0) EXCEPT !.s = op.s]>>
              ELSE <<op>>
  IN <<made>> \o ready \o <<As(op, IF op.op \in {"iter", "con"} THEN B0 ELSE 0)>> \o more

-----------------------------------------------------------------------------
Insts == CASE Fam = "cmp" -> CmpInsts
           [] Fam = "con" -> ConAll
           [] Fam = "str" -> {i \in StrInsts : StrGood(i)}
           [] OTHER -> {i \in LazyInsts : LazyGood(i)}
Init == inst \in Insts /\ heap = InitHeap /\ lz = <<>>
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Laws == CASE Fam = "cmp" -> CmpLaws(inst) [] Fam = "str" -> StrLaws(inst) [] OTHER -> TRUE
LzTable == IF Fam = "lazy" THEN [i \in 1..3 |-> LzRow(inst.v, i)]
           ELSE IF Fam = "con" THEN [i \in 1..2 |-> [v |-> 1000 + i, f |-> 0, d |-> <<>>]] ELSE <<>>
Lines == CASE Fam = "cmp" -> CmpLines(inst)
           [] Fam = "con" -> {ConLine(inst)}
           [] Fam = "str" -> {StrLine(inst)}
           [] OTHER -> {LazyLine(inst)}
Emit == ~Chosen(Seed, OneIn)
        \/ \A x \in Lines : x = <<>> \/ PrintScene([lt |-> LzTable, line |-> x])
=============================================================================
