------------------------------- MODULE Scenes -------------------------------
(***************************************************************************)
(* Calls and scenes.  The representation models (ListRep, ChainRep,        *)
(* ShareRep, IterRep) visit every state of a small representation; a scene *)
(* is a history that reaches one of them on the real library, with the     *)
(* menu of calls to try there.  TLC prints one scene for each state; the   *)
(* harness replays it and CollTrace judges what is recorded.               *)
(*                                                                         *)
(* A call is a record like an event of CollTrace.  Labels (from 100000 on) *)
(* stand for the objects that earlier calls made; as is the label of the   *)
(* result, 0 if it is not needed later.                                    *)
(***************************************************************************)
EXTENDS Values, SequencesExt

Label(i) == 100000 + i
NoCall == [op |-> "", r |-> 0, a |-> <<>>, xs |-> <<>>, kw |-> <<>>, s |-> "", as |-> 0]
Call0(op, r) == [NoCall EXCEPT !.op = op, !.r = r]
CallA(op, r, a) == [NoCall EXCEPT !.op = op, !.r = r, !.a = a]
CallX(op, r, xs) == [NoCall EXCEPT !.op = op, !.r = r, !.xs = xs]
CallS(op, r, s) == [NoCall EXCEPT !.op = op, !.r = r, !.s = s]
CallSA(op, r, s, a) == [NoCall EXCEPT !.op = op, !.r = r, !.s = s, !.a = a]
CallSX(op, r, s, xs) == [NoCall EXCEPT !.op = op, !.r = r, !.s = s, !.xs = xs]
As(c, lab) == [c EXCEPT !.as = lab]
Nat_(k, c) == [id |-> 0, k |-> k, c |-> c]
Obj_(lab) == [id |-> lab, k |-> "", c |-> <<>>]
Con(k, x, lab) == [NoCall EXCEPT !.op = "con", !.s = k, !.xs = <<x>>, !.as = lab]

\* A choice that depends on the seed, the state and q only (TLC has one worker)
Mix(seed, q) ==
  LET d == TLCGet("distinct")
  IN ((seed % 1000) * 7919 + q * 104729 + (d % 1999) * 7717 + ((d \div 1999) % 1999) * 3571) % 1000003
Chosen(seed, oneIn) == Mix(seed, 1) % oneIn = 0
\* At most m elements of S
Prime(k) == CHOOSE p \in {7919, 7927, 7933, 7937} : k % p # 0
Pick(seed, m, S) ==
  LET s == SetToSeq(S)
      k == Len(s)
  IN IF k <= m THEN s ELSE [i \in 1..m |-> s[((Mix(seed, 2) + i * Prime(k)) % k) + 1]]
PrintScene(x) == PrintT("SCENE " \o ToJson(x))
=============================================================================
