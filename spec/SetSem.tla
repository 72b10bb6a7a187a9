-------------------------------- MODULE SetSem -------------------------------
(***************************************************************************)
(* What Python's set does: the meaning of pset and tset.  Contents are     *)
(* sequences of value tokens without two equal values; their order is      *)
(* not significant.                                                        *)
(***************************************************************************)
EXTENDS Values, SequencesExt

SHas(c, v) == \E i \in Idx(c) : EqC(c[i]) = EqC(v)
SAdd(c, v) == IF SHas(c, v) THEN c ELSE Append(c, v)
SDrop(c, v) == Filter(c, LAMBDA x : EqC(x) # EqC(v))

\* The distinct values of a sequence, each at its first occurrence
Distinct(s) ==
  IF Cardinality(EqSet(s)) = Len(s) THEN s
  ELSE FoldLeft(LAMBDA acc, i : IF \A j \in 1..(i - 1) : EqC(s[j]) # EqC(s[i])
                                THEN Append(acc, s[i]) ELSE acc,
                <<>>, Ints(Len(s)))
SAddAll(c, s) ==
  LET have == EqSet(c) IN c \o Distinct(Filter(s, LAMBDA x : EqC(x) \notin have))
SDropAll(c, s) ==
  LET gone == EqSet(s) IN Filter(c, LAMBDA x : EqC(x) \notin gone)
SKeep(c, s) ==
  LET have == EqSet(s) IN Filter(c, LAMBDA x : EqC(x) \in have)
SXor(c, s) ==
  LET a == EqSet(c)
      b == EqSet(s)
  IN Filter(c, LAMBDA x : EqC(x) \notin b) \o Distinct(Filter(s, LAMBDA x : EqC(x) \notin a))

SEq(c, d) == EqSet(c) = EqSet(d)
SSub(c, d) == EqSet(c) \subseteq EqSet(d)
SDisj(c, d) == EqSet(c) \cap EqSet(d) = {}
SCanon(c) == EqSet(c)
=============================================================================
