-------------------------------- MODULE MapSem -------------------------------
(***************************************************************************)
(* What Python's dict does: the meaning of pdict, tdict, ldict and tldict. *)
(* Contents are sequences of <<key, value>> pairs in insertion order, no   *)
(* two keys equal.                                                         *)
(***************************************************************************)
EXTENDS Values, SequencesExt

Keys(c) == [i \in Idx(c) |-> c[i][1]]
Vals(c) == [i \in Idx(c) |-> c[i][2]]
MHas(c, k) == \E i \in Idx(c) : EqC(c[i][1]) = EqC(k)
MAt(c, k) == CHOOSE i \in Idx(c) : EqC(c[i][1]) = EqC(k)
MGet(c, k) == c[MAt(c, k)][2]
MSet(c, k, v) ==
  IF MHas(c, k) THEN [c EXCEPT ![MAt(c, k)] = <<@[1], v>>] ELSE Append(c, <<k, v>>)
MDrop(c, k) == Filter(c, LAMBDA p : EqC(p[1]) # EqC(k))

KeySet(c) == {EqC(c[i][1]) : i \in Idx(c)}
\* Setting all the pairs of s one after the other
MSetAll(c, s) ==
  IF Cardinality(KeySet(s)) = Len(s) /\ KeySet(c) \cap KeySet(s) = {} THEN c \o s
  ELSE FoldLeft(LAMBDA acc, p : MSet(acc, p[1], p[2]), c, s)
MDropAll(c, ks) ==
  LET gone == {EqC(ks[i]) : i \in Idx(ks)} IN Filter(c, LAMBDA p : EqC(p[1]) \notin gone)
MEq(c, d) ==
  /\ Len(c) = Len(d)
  /\ {<<EqC(c[i][1]), EqC(c[i][2])>> : i \in Idx(c)} = {<<EqC(d[i][1]), EqC(d[i][2])>> : i \in Idx(d)}
MCanon(c) == {<<EqC(c[i][1]), EqC(c[i][2])>> : i \in Idx(c)}
=============================================================================
