------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* The values that collections hold.                                       *)
(*                                                                         *)
(* A value is an integer token.  Positive tokens below 1000 are rows of    *)
(* the value table (a JSON file written by the harness, so that the spec   *)
(* and the Python side speak of the same objects): equality class,         *)
(* hashability, order class and rank, repr and JSON text.  Tokens from     *)
(* 1000 on are the integers with that value.  A negative token -k is the   *)
(* k-th lazy value of the current history.  Two tokens are the same Python *)
(* object exactly when they are the same integer.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

UT == JsonDeserialize(IOEnv.PC_UNIVERSE)
UEq == UT.eq
UHs == UT.hs
UOc == UT.oc
URank == UT.rank
UPo == UT.po
UMem == UT.mem
URp == UT.rp
UJs == UT.js

ALIEN == -9999
BROKEN == -9998
NIL == 99999

IsLazy(t) == t < 0 /\ t > -9000

\* The equality class: a == b (or a is b) iff EqC(a) = EqC(b).
EqC(t) == IF t >= 1000 \/ t < 0 THEN t ELSE UEq[t]
\* Whether an item x is equal to the value p that is looked for (class 0: a value
\* that is equal to everything; it is only looked for, never put in).
Same(x, p) == EqC(p) = 0 \/ EqC(x) = EqC(p)
Hashable(t) == IF t >= 1000 \/ t < 0 THEN TRUE ELSE UHs[t] = 1
OrdC(t) == IF t >= 1000 THEN 1 ELSE IF t < 0 THEN 0 ELSE UOc[t]
Rank(t) == IF t >= 1000 THEN t * 10 ELSE IF t < 0 THEN 0 ELSE URank[t]
Repr(t) == IF t >= 1000 THEN ToString(t) ELSE IF t < 0 THEN "lazy#" \o ToString(-t) ELSE URp[t]
JText(t) == IF t >= 1000 THEN ToString(t) ELSE IF t < 0 THEN "" ELSE UJs[t]

\* Values without a total order: NaN (1), which compares with every number, and
\* sets (2), which are ordered by inclusion
PoC(t) == IF t >= 1000 \/ t < 0 THEN 0 ELSE UPo[t]
Mem(t) == {UMem[t][i] : i \in DOMAIN UMem[t]}
\* How two values compare under < and >: "eq", "lt", "gt", "un" (neither is less
\* than the other) or "err" (TypeError)
Cmp(a, b) ==
  IF EqC(a) = EqC(b) THEN "eq"
  ELSE IF 1 \in {PoC(a), PoC(b)} /\ \A t \in {a, b} : PoC(t) = 1 \/ OrdC(t) = 1 THEN "un"
  ELSE IF PoC(a) = 2 /\ PoC(b) = 2
  THEN IF Mem(a) \subseteq Mem(b) THEN "lt" ELSE IF Mem(b) \subseteq Mem(a) THEN "gt" ELSE "un"
  ELSE IF OrdC(a) = 0 \/ OrdC(a) # OrdC(b) THEN "err"
  ELSE IF Rank(a) < Rank(b) THEN "lt" ELSE "gt"

-----------------------------------------------------------------------------
(* Small helpers on finite sequences.                                      *)
Idx(s) == 1..Len(s)
RangeOf(s) == {s[i] : i \in Idx(s)}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Rev(s) == [i \in Idx(s) |-> s[Len(s) + 1 - i]]
Map1(Op(_), s) == [i \in Idx(s) |-> Op(s[i])]
RemoveIdx(s, i) == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]
InsertIdx(s, i, x) ==   \* x becomes the i-th item (1-based)
  [j \in 1..(Len(s) + 1) |-> IF j < i THEN s[j] ELSE IF j = i THEN x ELSE s[j - 1]]
Filter(s, Test(_)) == SelectSeq(s, Test)
EqSet(s) == {EqC(s[i]) : i \in Idx(s)}
Ints(n) == [i \in 1..n |-> i]
=============================================================================
