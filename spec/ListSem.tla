------------------------------- MODULE ListSem ------------------------------
(***************************************************************************)
(* What Python's list does: the meaning that plist, tlist, llist and       *)
(* tllist must have.  Contents are sequences of value tokens; indices are  *)
(* Python's (from 0, negative from the end).                               *)
(***************************************************************************)
EXTENDS Values

InRange(i, n) == i >= -n /\ i < n
\* Position (1-based) of a Python index that is in range
Pos(i, n) == IF i < 0 THEN i + n + 1 ELSE i + 1
\* Python's clamping of the index of insert(): the 1-based position of the new item
InsPos(i, n) == IF i < 0 THEN Max2(i + n, 0) + 1 ELSE Min2(i, n) + 1

\* slice(a, b, c).indices(n); NIL stands for None; c # 0
SliceStep(c) == IF c = NIL THEN 1 ELSE c
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
SliceStart(a, c, n) ==
  LET st == SliceStep(c)
      lo == IF st < 0 THEN -1 ELSE 0
      hi == IF st < 0 THEN n - 1 ELSE n
  IN IF a = NIL THEN (IF st < 0 THEN n - 1 ELSE 0)
     ELSE Clamp(IF a < 0 THEN a + n ELSE a, lo, hi)
SliceStop(b, c, n) ==
  LET st == SliceStep(c)
      lo == IF st < 0 THEN -1 ELSE 0
      hi == IF st < 0 THEN n - 1 ELSE n
  IN IF b = NIL THEN (IF st < 0 THEN -1 ELSE n)
     ELSE Clamp(IF b < 0 THEN b + n ELSE b, lo, hi)
SliceLen(s, e, st) ==
  IF st > 0 THEN (IF s < e THEN (e - s - 1) \div st + 1 ELSE 0)
  ELSE (IF e < s THEN (s - e - 1) \div (-st) + 1 ELSE 0)
LSlice(c, a, b, k) ==
  LET n == Len(c)
      st == SliceStep(k)
      s == SliceStart(a, k, n)
      e == SliceStop(b, k, n)
  IN [i \in 1..SliceLen(s, e, st) |-> c[s + (i - 1) * st + 1]]

LSet(c, i, v) == [c EXCEPT ![Pos(i, Len(c))] = v]
LDel(c, i) == RemoveIdx(c, Pos(i, Len(c)))
LIns(c, i, v) == InsertIdx(c, InsPos(i, Len(c)), v)

\* The positions (1-based) at which an item equal to v occurs
At(c, v) == {i \in Idx(c) : Same(c[i], v)}
\* index(v, a, b): bounds are clamped like slice bounds; -1 if absent
LIndex(c, v, a, b) ==
  LET n == Len(c)
      lo == IF a = NIL THEN 0 ELSE IF a < 0 THEN Max2(a + n, 0) ELSE a
      hi == IF b = NIL THEN n ELSE IF b < 0 THEN b + n ELSE b
      S == {i \in At(c, v) : i - 1 >= lo /\ i - 1 < hi}
  IN IF S = {} THEN -1 ELSE MinOf(S) - 1

LRepeat(c, k) ==
  LET n == Len(c)
  IN [i \in 1..(IF k <= 0 THEN 0 ELSE k * n) |-> c[((i - 1) % n) + 1]]

-----------------------------------------------------------------------------
(* Sorting: stable, by the order of the values ("none"), by the negated    *)
(* rank ("neg") or by a constant ("const"); reverse keeps stability.       *)
SortKeyOf(mode, t) == CASE mode = "none" -> Rank(t) [] mode = "neg" -> -Rank(t) [] OTHER -> 0
Sortable(c, mode) ==
  \/ mode = "const"
  \/ mode = "none" /\ Len(c) < 2
  \/ \A i \in Idx(c) : OrdC(c[i]) # 0 /\ OrdC(c[i]) = OrdC(c[1])
     /\ (mode = "neg" => OrdC(c[i]) = 1)
LSort(c, mode, reverse) ==
  LET n == Len(c)
      K(i) == SortKeyOf(mode, c[i])
      Before(i, j) == \/ (IF reverse THEN K(i) > K(j) ELSE K(i) < K(j))
                      \/ K(i) = K(j) /\ i < j
      RankOf(i) == 1 + Cardinality({j \in 1..n : Before(j, i)})
      P == [i \in 1..n |-> RankOf(i)]
  IN [r \in 1..n |-> c[CHOOSE i \in 1..n : P[i] = r]]

-----------------------------------------------------------------------------
(* Comparison.                                                             *)
LEq(c, d) == Len(c) = Len(d) /\ \A i \in Idx(c) : EqC(c[i]) = EqC(d[i])
\* "eq", "lt" or "gt", or else what the first items that differ have for an order:
\* none ("un") or one that raises TypeError ("err")
LCmp(c, d) ==
  LET m == Min2(Len(c), Len(d))
      D == {i \in 1..m : EqC(c[i]) # EqC(d[i])}
  IN IF D = {} THEN IF Len(c) < Len(d) THEN "lt" ELSE IF Len(c) > Len(d) THEN "gt" ELSE "eq"
     ELSE Cmp(c[MinOf(D)], d[MinOf(D)])
LCanon(c) == [i \in Idx(c) |-> EqC(c[i])]
=============================================================================
