------------------------------- MODULE ListRep ------------------------------
(***************************************************************************)
(* The representation of plist and tlist: a persistent array f of slots    *)
(* and the slot st of the first item.  Prepending moves st below zero;     *)
(* deleting from the front moves it up; inserting and deleting shift the   *)
(* shorter side.  The array iterates over the slots from zero up before    *)
(* the negative ones, so that reading a list whose slots span zero must    *)
(* take them in two parts.  A transient remembers the persistent list that *)
(* it was made from (orig) until it is edited.                             *)
(*                                                                         *)
(* Checked: every state represents exactly the contents c that ListSem     *)
(* says (Refines), reading it in two parts gives them in order, and orig,  *)
(* when remembered, has the contents of the transient (OrigSound).         *)
(* Every state is printed as a scene for the real library.                 *)
(***************************************************************************)
EXTENDS ListSem, SequencesExt, Scenes

CONSTANTS MaxLen,    \* items
          MaxOff,    \* |st|
          BugRead,   \* demonstration: TRUE reads spanning lists in slot order
          BugOrig,   \* demonstration: TRUE keeps orig over an item assignment
          OneIn,     \* emit one in so many states
          Most,      \* the most calls of each menu
          Seed

VARIABLES kind,      \* "no", "p" or "t"
          f, st,     \* the slots and the first one
          orig,      \* <<>> or <<contents of the remembered list>>
          c,         \* the contents, by ListSem
          cnt,       \* items made so far
          lab,       \* the label of the object
          pre, suf   \* how it was made: calls up to and after transient()
vars == <<kind, f, st, orig, c, cnt, lab, pre, suf>>

Dom == DOMAIN f
n == Cardinality(Dom)
New == 1000 + cnt

-----------------------------------------------------------------------------
(* The edits, as the code makes them.                                      *)
Put(g, k, v) == (k :> v) @@ g
Cut(g, k) == [j \in DOMAIN g \ {k} |-> g[j]]
\* a loop: the slots ks, in order, receive what their neighbour d holds
Shift(g, ks, d) == FoldLeft(LAMBDA acc, k : Put(acc, k, acc[k + d]), g, ks)
Up(a, b) == [i \in 1..Max2(b - a + 1, 0) |-> a + i - 1]
Down(a, b) == Rev(Up(b, a))
\* [f, st] after deleting the item at i (from 0)
DelRep(i) ==
  IF n - i <= i
  THEN [f |-> Cut(Shift(f, Up(i + st, n + st - 2), 1), n + st - 1), st |-> st]
  ELSE [f |-> Cut(Shift(f, Down(i + st, st + 1), -1), st), st |-> st + 1]
\* [f, st] after inserting v before i (from 0)
InsRep(i, v) ==
  IF n - i <= i
  THEN [f |-> Put(Shift(Put(f, n + st, v), Down(n + st, i + st + 1), -1), i + st, v), st |-> st]
  ELSE [f |-> Put(Shift(Put(f, st - 1, v), Up(st - 1, i + st - 2), 1), i + st - 1, v), st |-> st - 1]

\* The array's own order, and how a list is read
ArrayOrder == SetToSortSeq({k \in Dom : k >= 0}, <) \o SetToSortSeq({k \in Dom : k < 0}, <)
Read ==
  IF BugRead \/ st >= 0 \/ n + st < 0 THEN [i \in 1..n |-> f[ArrayOrder[i]]]
  ELSE [i \in 1..(-st) |-> f[st + i - 1]] \o [i \in 1..(n + st) |-> f[ArrayOrder[i]]]

-----------------------------------------------------------------------------
Init ==
  /\ kind = "no" /\ f = <<>> /\ st = 0 /\ orig = <<>> /\ c = <<>> /\ cnt = 0
  /\ lab = 0 /\ pre = <<>> /\ suf = <<>>

\* An edit: the call that makes it, and what it makes
Edited(call, rep, c2, new, keep) ==
  /\ f' = rep.f /\ st' = rep.st /\ c' = c2
  /\ cnt' = cnt + new
  /\ kind' = kind
  /\ IF kind = "p"
     THEN /\ lab' = lab + 1
          /\ pre' = Append(pre, As(call, Label(lab + 1)))
          /\ UNCHANGED <<suf, orig>>
     ELSE /\ suf' = Append(suf, call)
          /\ orig' = IF keep THEN orig ELSE <<>>
          /\ UNCHANGED <<lab, pre>>

Make ==
  /\ kind = "no"
  /\ \E m \in 0..MaxLen :
       LET s == [i \in 1..m |-> 999 + i]
       IN /\ kind' = "p" /\ lab' = 1
          /\ f' = [k \in 0..(m - 1) |-> s[k + 1]] /\ st' = 0 /\ c' = s /\ cnt' = m
          /\ pre' = <<Con("pl", Nat_("L", s), Label(1))>>
          /\ UNCHANGED <<orig, suf>>
Cur == Label(lab)
EditStep ==
  /\ kind # "no"
  /\ \/ /\ n < MaxLen /\ st > -MaxOff
        /\ Edited(CallA("prepend", Cur, <<New>>),
                  [f |-> Put(f, st - 1, New), st |-> st - 1], <<New>> \o c, 1, FALSE)
     \/ /\ n < MaxLen
        /\ Edited(CallA("append", Cur, <<New>>),
                  [f |-> Put(f, st + n, New), st |-> st], Append(c, New), 1, FALSE)
     \/ \E i \in 0..n :
          /\ n < MaxLen
          /\ LET r == InsRep(i, New)
             IN r.st >= -MaxOff /\ Edited(CallA("insert", Cur, <<i, New>>), r, LIns(c, i, New), 1, FALSE)
     \/ \E i \in 0..(n - 1) :
          LET r == DelRep(i)
          IN r.st <= MaxOff /\ (kind = "p" => n > 1)   \* deleting the last item gives the empty list
             /\ Edited(CallA("delete", Cur, <<i>>), r, LDel(c, i), 0, FALSE)
     \/ \E i \in 0..(n - 1) :
          Edited(CallA("set", Cur, <<i, New>>), [f |-> Put(f, st + i, New), st |-> st],
                 LSet(c, i, New), 1, BugOrig)
Thaw ==
  /\ kind = "p"
  /\ kind' = "t" /\ lab' = lab + 1
  /\ orig' = <<c>>
  /\ suf' = <<As(Call0("transient", Cur), Label(lab + 1))>>
  /\ UNCHANGED <<f, st, c, cnt, pre>>
Next == Make \/ EditStep \/ Thaw
Spec == Init /\ [][Next]_vars
OrigSound == orig # <<>> => orig[1] = c
View == <<kind, n, st, orig # <<>>, OrigSound>>

Refines ==
  kind # "no" => /\ Dom = st..(st + n - 1)
                 /\ c = [i \in 1..n |-> f[st + i - 1]]
                 /\ Read = c

-----------------------------------------------------------------------------
(* What to try on an object with contents c.                               *)
Ixs == (-n - 2)..(n + 2)
Bs == {NIL, 0, 1, n - 1, n, n + 1, -1, -n, -n - 1}
X == 2599
A(op, a) == CallA(op, Cur, a)
L(op, k, s) == CallX(op, Cur, <<Nat_(k, s)>>)
Edits ==
  {A("set", <<i, X>>) : i \in Ixs} \cup {A("set", <<i, c[i + 1]>>) : i \in 0..(n - 1)}
  \cup {A("delete", <<i>>) : i \in Ixs}
  \cup {A("pop", <<i>>) : i \in Ixs} \cup {A("pop", <<>>)}
  \cup {A("insert", <<i, X>>) : i \in Ixs}
  \cup {A("append", <<X>>), A("prepend", <<X>>), A("reverse", <<>>), A("clear", <<>>)}
  \cup {L("extend", "L", s) : s \in {<<>>, <<X>>, <<X, X - 1>>}}
  \cup {L("extend", "X", s) : s \in {<<>>, <<X, X - 1>>}}
  \cup {CallX("extend", Cur, <<Obj_(Cur)>>)}
  \cup {A("remove", <<t>>) : t \in RangeOf(c) \cup {X}}
  \cup {CallSA("sort", Cur, s, <<r>>) : s \in {"none", "neg", "const"}, r \in 0..1}
  \cup IF kind = "p" THEN {A("drop", <<i>>) : i \in Ixs}
        ELSE {A("imul", <<k>>) : k \in -1..3} \cup {L("iadd", "L", s) : s \in {<<>>, <<X>>}}
             \cup {CallX("iadd", Cur, <<Obj_(Cur)>>)}
Reads ==
  {A("get", <<i>>) : i \in Ixs}
  \cup {L("add", "L", s) : s \in {<<>>, <<X>>}} \cup {CallX("add", Cur, <<Obj_(Cur)>>)}
  \cup {L("radd", "L", s) : s \in {<<>>, <<X, X - 1>>}}
  \cup {A(op, <<k>>) : op \in {"mul", "rmul"}, k \in -1..3}
  \cup {A(op, <<t>>) : op \in {"contains", "count", "index"}, t \in RangeOf(c) \cup {X}}
  \cup {A("index", <<t, i>>) : t \in RangeOf(c), i \in Ixs}
  \cup {A("index", <<t, i, j>>) : t \in RangeOf(c), i \in Ixs, j \in Ixs}
  \cup {A("slice", <<a, b, k>>) : a \in Bs, b \in Bs, k \in {NIL, -1, 2, -2}}
  \cup {A(op, <<>>) : op \in {"rev", "list", "str", "repr", "json", "copycopy", "deepcopy",
                              "copy", "len", "bool"}}
  \cup {A("pickle", <<i>>) : i \in 0..5} \cup {A("xpickle", <<2>>)}
  \cup {CallS("iter", Cur, s) : s \in {"fwd", "rev"}}
  \cup {CallX("eq", Cur, <<Obj_(Cur)>>)}
  \cup {L("eq", "L", s) : s \in {c, Rev(c), Append(c, X)}}
  \cup IF kind = "p" THEN {A(op, <<>>) : op \in {"transient", "hash"}} ELSE {A("persistent", <<>>)}
\* After an edit of a transient: its snapshot, more edits, the snapshot again
After == IF kind = "t"
         THEN <<Call0("persistent", Cur), CallA("append", Cur, <<X - 2>>), CallA("prepend", Cur, <<X - 3>>),
                Call0("persistent", Cur)>>
         ELSE <<>>
Emit ==
  kind = "no" \/ ~Chosen(Seed, OneIn)
  \/ PrintScene([pre |-> pre, suf |-> suf, tail |-> After, edits |-> Pick(Seed, Most, Edits), reads |-> Pick(Seed, Most, Reads)])
=============================================================================
