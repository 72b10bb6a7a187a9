------------------------------ MODULE Threads ------------------------------
(* Calls of several threads on collections that share structure (C22).      *)
(*                                                                          *)
(* The calls of Collections are atomic.  Those of the library are not: a    *)
(* call is a number of steps, and other threads run between them.  This     *)
(* module says what makes them look atomic all the same: what a call reads  *)
(* of an object that several threads use never changes, what it writes is   *)
(* its own until it returns, and the one thing that is written to a shared  *)
(* object - its hash, kept - is written in one step, once it is known.      *)
(*                                                                          *)
(* X is a persistent collection that every thread uses.  A call is one of   *)
(*   "fold"  reads X item by item (len, list, equality, text, ..)           *)
(*   "hash"  the same, and keeps the result in the object                   *)
(*   "make"  makes a transient of X, edits it, and makes that persistent    *)
(* Designs other than "lib" each break one of the rules:                    *)
(*   "scratch"  the items read are gathered in a place that all calls use   *)
(*   "early"    the hash is kept before it is complete                      *)
(*   "cached"   the transient of X is made once and kept for the next call  *)
(*   "inplace"  an edit of the last copy of X is made in X                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Design, Progs, TrackH

VARIABLES prog,     \* a sequence of calls for each thread
          items,    \* the contents of X
          kept,     \* the hash kept in X: a sequence of items, or <<0>> if none
          common,   \* a place that all calls can write to
          k, st,    \* of each thread: the number of its call, the next step of it
          own,      \* of each thread: what its call has gathered
          out,      \* of each thread: the results
          h         \* the threads that made the steps, in order (if TrackH)
vars == <<prog, items, kept, common, k, st, own, out, h>>

X0 == <<1, 2>>
None == <<0>>
Thr == DOMAIN prog
New(t) == 10 + t

Init == /\ prog \in Progs
        /\ items = X0
        /\ kept = None
        /\ common = None
        /\ k = [t \in Thr |-> 1]
        /\ st = [t \in Thr |-> 1]
        /\ own = [t \in Thr |-> <<>>]
        /\ out = [t \in Thr |-> <<>>]
        /\ h = <<>>

Call(t) == prog[t][k[t]]
Mine(t) == IF Design = "scratch" /\ Call(t) = "fold" THEN common ELSE own[t]
\* The thread returns v from its call.
Return(t, v) == /\ out' = [out EXCEPT ![t] = Append(@, v)]
                /\ k' = [k EXCEPT ![t] = @ + 1]
                /\ st' = [st EXCEPT ![t] = 1]
                /\ own' = [own EXCEPT ![t] = <<>>]
\* It goes on with what it gathered.
GoOn(t, v) == /\ st' = [st EXCEPT ![t] = @ + 1]
              /\ own' = [own EXCEPT ![t] = v]
              /\ UNCHANGED <<k, out>>

Fold(t) == /\ Call(t) = "fold"
           /\ UNCHANGED <<items, kept>>
           /\ LET i == st[t]
                  m == IF i = 1 THEN <<>> ELSE Mine(t)
              IN IF i <= Len(X0)
                 THEN /\ GoOn(t, IF i <= Len(items) THEN Append(m, items[i]) ELSE m)
                      /\ common' = IF Design = "scratch" THEN (IF i <= Len(items) THEN Append(m, items[i]) ELSE m) ELSE common
                 ELSE Return(t, m) /\ UNCHANGED common

Hash(t) == /\ Call(t) = "hash"
           /\ UNCHANGED <<items, common>>
           /\ LET i == st[t]
              IN IF i = 1 /\ kept # None
                 THEN Return(t, kept) /\ UNCHANGED kept
                 ELSE IF i <= Len(X0)
                      THEN /\ GoOn(t, Append(own[t], items[i]))
                           /\ kept' = IF Design = "early" THEN Append(own[t], items[i]) ELSE kept
                      ELSE Return(t, own[t]) /\ kept' = own[t]

Make(t) == /\ Call(t) = "make"
           /\ UNCHANGED kept
           /\ CASE st[t] = 1 -> /\ GoOn(t, items)
                                /\ common' = IF Design = "cached" /\ common = None THEN items ELSE common
                                /\ UNCHANGED items
                [] st[t] = 2 -> LET b == IF Design = "cached" THEN common ELSE own[t]
                                IN /\ GoOn(t, Append(b, New(t)))
                                   /\ common' = IF Design = "cached" THEN Append(b, New(t)) ELSE common
                                   /\ items' = IF Design = "inplace" THEN Append(items, New(t)) ELSE items
                [] OTHER -> /\ Return(t, IF Design = "cached" THEN common ELSE own[t])
                            /\ items' = IF Design = "inplace" THEN X0 ELSE items
                            /\ common' = IF Design = "cached" THEN None ELSE common

Step(t) == /\ k[t] <= Len(prog[t])
           /\ (Fold(t) \/ Hash(t) \/ Make(t))
           /\ h' = IF TrackH THEN Append(h, t) ELSE h
           /\ UNCHANGED prog
Done == /\ \A t \in Thr : k[t] > Len(prog[t])
        /\ UNCHANGED vars
Next == (\E t \in Thr : Step(t)) \/ Done
Spec == Init /\ [][Next]_vars /\ \A t \in 1..3 : WF_vars(t \in Thr /\ Step(t))

\* What the call gives when no other thread runs: the contents of X as they
\* were in the beginning (its hash stands for itself), with the edit or not.
Alone(t, c) == IF c = "make" THEN Append(X0, New(t)) ELSE X0
Atomic == \A t \in Thr : \A i \in DOMAIN out[t] : out[t][i] = Alone(t, prog[t][i])
Unchanged == items = X0
KeptRight == kept \in {None, X0}
AllEnd == <>[](\A t \in Thr : k[t] > Len(prog[t]))

Calls == {"fold", "hash", "make"}
\* two threads with one or two calls, three with one call
Small == {<<p, q>> : p \in {<<c>> : c \in Calls} \cup {<<c, d>> : c \in Calls, d \in Calls},
                     q \in {<<c>> : c \in Calls} \cup {<<c, d>> : c \in Calls, d \in Calls}}
         \cup {<<<<c>>, <<d>>, <<e>>>> : c \in Calls, d \in Calls, e \in Calls}
\* the orders of steps that are forced on the code
Orders == {<<<<"fold", "make">>, <<"make">>>>, <<<<"fold">>, <<"make">>>>, <<<<"make">>, <<"fold">>, <<"make">>>>}
Ended == \A t \in Thr : k[t] > Len(prog[t])
Emit == (TrackH /\ Ended) => PrintT("ORDER " \o ToJson(h))
=============================================================================
