-------------------------------- MODULE MCColl -------------------------------
(***************************************************************************)
(* The state machine Collections, explored: a few live objects of one      *)
(* family, and every sequence of calls from a menu, up to a depth.  What   *)
(* distinguishes two states is the heap and how its objects came from each *)
(* other (prov: from which object, by what, and how much that one had been *)
(* edited by then) - the only thing that sharing between objects and       *)
(* remembered originals can depend on.                                     *)
(*                                                                         *)
(* Fam = "share..": objects made from each other and edited in turn.       *)
(* Fam = "iter..": iterators taken, advanced and their sources edited.     *)
(*                                                                         *)
(* Checked of the specification itself: what the properties say in the     *)
(* large follows from what Outcome says of each call (invariants and step  *)
(* properties below).  Each state's path is printed as a scene for the     *)
(* real library.                                                           *)
(***************************************************************************)
EXTENDS Collections, Scenes

CONSTANTS Fam,       \* what is explored
          Base,      \* the kind it starts from: "pl", "ll", "ps", "pd" or "ld"
          Start,     \* which history the first object has
          MaxDepth, MaxObj,
          Bug,       \* demonstration: "" or a wrong semantics that the checks reject
          OneIn, Seed

VARIABLES prov,      \* per object: <<source, how, edits of the source by then>>
          path,      \* the calls so far
          nextid
vars == <<heap, lz, prov, path, nextid>>

LZ0 == IF Base \in LazyK
       THEN <<[v |-> 1000, f |-> 0, d |-> <<>>, calls |-> 0, rdy |-> 0],
              [v |-> 1001, f |-> 0, d |-> <<1>>, calls |-> 0, rdy |-> 0]>>
       ELSE <<>>
B == Base
T == TKind(Base)
Kinds == {B, T} \cup (CASE B = "ll" -> {"pl", "tl"} [] B = "ld" -> {"pd", "td"} [] OTHER -> {})
\* The keys: 1..4; the harness replaces them by colliding ones
Val(i) == IF B \in LazyK /\ i <= 2 THEN -i ELSE 1000 + i
C0 == IF B \in ListK THEN <<Val(1), Val(2), Val(3)>>
      ELSE IF B \in SetK THEN <<1, 2, 3>>
      ELSE <<<<1, Val(1)>>, <<2, Val(2)>>, <<3, Val(3)>>>>
NatKind == IF B \in MapK THEN "P" ELSE "L"
NewTok(r) == 1010 + 10 * (r % 10) + (heap[r].mv % 10)

Ev(c) == [op |-> c.op, r |-> c.r, a |-> c.a, xs |-> c.xs, kw |-> c.kw, s |-> c.s,
          res |-> [k |-> "", v |-> <<>>, id |-> 0, s |-> ""]]

-----------------------------------------------------------------------------
(* One call of the state machine.                                          *)
Evaluated(o) == [j \in Idx(lz) |-> IF j \in o.must /\ lz[j].rdy = 0
                                   THEN [lz[j] EXCEPT !.calls = 1, !.rdy = 1] ELSE lz[j]]
Source(c) == IF c.op = "con" THEN c.xs[1].id ELSE c.r
Edits(i) == IF i \in DOMAIN heap THEN heap[i].mv ELSE 0

\* In the model objects go by their ids, in the scene by their labels
Lab(i) == IF i < 10 THEN i ELSE Label(i)
Relabel(c) == [c EXCEPT !.r = IF @ = 0 THEN 0 ELSE Lab(@),
                        !.xs = [i \in Idx(@) |-> IF @[i].id = 0 THEN @[i] ELSE [@[i] EXCEPT !.id = Lab(@)]]]

Do(c) ==
  LET e == Ev(c)
      o == Outcome(e)
      exc == o.ex # {}
      makes == ~exc /\ o.rk = "obj" /\ o.oid = 0
      makesit == c.op = "iter" /\ o.ok = "it"
      isit == c.op # "con" /\ heap[c.r].k = "it"
      h1 == IF c.op = "con" THEN heap
            ELSE [heap EXCEPT ![c.r] = Touched(e, @, IF isit THEN @.c ELSE o.post)]
      \* the wrong semantics, for demonstration
      h2 == IF Bug = "snapshot" /\ c.op # "con" /\ ~isit /\ heap[c.r].k \in Trans
            THEN [x \in DOMAIN h1 |-> IF prov[x] = <<c.r, "persistent", heap[c.r].mv>>
                                      THEN [h1[x] EXCEPT !.c = h1[c.r].c] ELSE h1[x]]
            ELSE IF Bug = "copy" /\ c.op # "con" /\ ~isit /\ heap[c.r].k \in Trans
            THEN [x \in DOMAIN h1 |-> IF prov[x][1] = c.r /\ prov[x][2] = "copy"
                                      THEN [h1[x] EXCEPT !.c = h1[c.r].c] ELSE h1[x]]
            ELSE h1
  IN /\ heap' = IF makes THEN (nextid :> Obj0(o.ok, o.oc)) @@ h2
                ELSE IF makesit THEN (nextid :> NewIter(e, heap[c.r])) @@ h2
                ELSE h2
     /\ prov' = IF makes \/ makesit
                THEN (nextid :> <<Source(c), c.op, Edits(Source(c))>>) @@ prov
                ELSE prov
     /\ nextid' = IF makes \/ makesit THEN nextid + 1 ELSE nextid
     /\ lz' = Evaluated(o)
     /\ path' = Append(path, IF makes \/ makesit THEN As(Relabel(c), Label(nextid)) ELSE Relabel(c))

-----------------------------------------------------------------------------
(* Menus.                                                                  *)
Objs == {i \in DOMAIN heap : i >= 10 /\ heap[i].k # "it"}
Its == {i \in DOMAIN heap : heap[i].k = "it"}
Room == Cardinality(Objs) < MaxObj
AddCall(i) ==
  IF B \in ListK THEN CallA("append", i, <<NewTok(i)>>)
  ELSE IF B \in SetK THEN CallA("add", i, <<4>>)
  ELSE CallA("set", i, <<4, NewTok(i)>>)
HasKey(i, k) == IF B \in SetK THEN SHas(heap[i].c, k) ELSE MHas(heap[i].c, k)
EditCalls(i) ==
  IF B \in ListK
  THEN {AddCall(i)}
       \cup (IF Len(heap[i].c) > 0 THEN {CallA("set", i, <<0, NewTok(i)>>), CallA("delete", i, <<0>>)} ELSE {})
  ELSE {AddCall(i)} \cup {CallA(IF B \in SetK THEN "discard" ELSE "delete", i, <<k>>) :
                            k \in {q \in {2, 4} : HasKey(i, q)}}
       \cup (IF B \in MapK /\ HasKey(i, 1) THEN {CallA("set", i, <<1, NewTok(i)>>)} ELSE {})
\* Copies of what is there, made by every means
MakeCalls(i) ==
  LET k == heap[i].k
  IN {[NoCall EXCEPT !.op = "con", !.s = q, !.xs = <<Obj_(i)>>] : q \in Kinds}
     \cup (IF k \in Pers THEN {Call0("transient", i)} ELSE {Call0("persistent", i), Call0("copy", i)})
     \cup (IF k \in {"ll", "ld", "tld"} THEN {Call0("hold", i)} ELSE {})
     \* .. and by operations that may have nothing to do but copy
     \cup (IF k \in Pers \/ k \in MapK THEN {}
           ELSE IF k \in ListK
           THEN {CallA("slice", i, <<NIL, NIL, -1>>), CallA("slice", i, <<NIL, NIL, NIL>>), CallA("mul", i, <<1>>)}
           ELSE {CallX("union", i, <<Nat_("L", <<4>>)>>), CallX("difference", i, <<Nat_("L", <<1>>)>>),
                 CallX("or", i, <<Nat_("S", <<>>)>>)})
ShareMenu ==
  (IF Room THEN UNION {MakeCalls(i) : i \in Objs} \cup UNION {EditCalls(i) : i \in {j \in Objs : heap[j].k \in Pers}}
   ELSE {})
  \cup UNION {EditCalls(i) : i \in {j \in Objs : heap[j].k \in Trans}}
  \cup {Call0("clear", i) : i \in {j \in Objs : heap[j].k \in Trans}}

ItModes == IF B \in MapK THEN {"fwd", "values", "items", "rev", "rkeys", "rvalues", "ritems"}
           ELSE IF B \in ListK THEN {"fwd", "rev"} ELSE {"fwd"}
MoreEdits(i) ==
  EditCalls(i)
  \cup {Call0("clear", i)}
  \cup IF B \in ListK
       THEN {CallA("prepend", i, <<NewTok(i)>>), CallA("insert", i, <<1, NewTok(i)>>)}
            \cup (IF heap[i].c # <<>> THEN {CallA("pop", i, <<>>), CallA("delete", i, <<-1>>)} ELSE {})
       ELSE IF B \in SetK THEN {CallA("discard", i, <<k>>) : k \in {q \in {1, 3} : HasKey(i, q)}}
       ELSE {CallA("delete", i, <<k>>) : k \in {q \in {1, 3} : HasKey(i, q)}}
            \cup {CallA("setdefault", i, <<k, NewTok(i)>>) : k \in {1, 4}}
IterMenu ==
  LET obs == {i \in Objs : heap[i].k \in Trans}
  IN (IF Cardinality(Its) < MaxObj THEN {CallS("iter", i, m) : i \in Objs, m \in ItModes} ELSE {})
     \cup {[Call0("next", i) EXCEPT !.s = heap[i].mode] : i \in {j \in Its : heap[j].pos <= Len(heap[j].c) + 1}}
     \cup UNION {MoreEdits(i) : i \in obs}
Menu == IF Fam = "share" THEN ShareMenu ELSE IterMenu

-----------------------------------------------------------------------------
(* The first objects.                                                      *)
Con1(k, i, c) == [NoCall EXCEPT !.op = "con", !.s = k, !.xs = <<Nat_(NatKind, c)>>, !.as = Label(i)]
AsId(c, i) == As(Relabel(c), Label(i))
\* [heap, path, next]: an object with contents C0 (or like it) and a history
Starts ==
  LET mk(k, c, p, n) == [k |-> k, c |-> c, p |-> p, n |-> n]
      Drop1 == IF B \in ListK THEN CallA("delete", 10, <<0>>)
               ELSE IF B \in SetK THEN CallA("discard", 10, <<1>>) ELSE CallA("delete", 10, <<1>>)
      Back == IF B \in ListK THEN CallA("prepend", 10, <<C0[1]>>)
              ELSE IF B \in SetK THEN CallA("add", 10, <<1>>) ELSE CallA("set", 10, <<1, Val(1)>>)
      Moved == IF B \in ListK THEN C0 ELSE <<C0[2], C0[3], C0[1]>>
  IN CASE Start = "empty" -> mk(B, <<>>, <<Con1(B, 10, <<>>)>>, 10)
       [] Start = "pers" -> mk(B, C0, <<Con1(B, 10, C0)>>, 10)
       [] Start = "temp" -> mk(T, C0, <<Con1(T, 10, C0)>>, 10)
       [] Start = "persneg" ->      \* slots below zero; a chain whose first entry went and came back
            mk(B, Moved, <<Con1(B, 10, C0), AsId(Drop1, 10), AsId(Back, 10)>>, 10)
       [] Start = "tempneg" ->
            mk(T, Moved, <<Con1(T, 10, C0), Relabel(Drop1), Relabel(Back)>>, 10)
       [] OTHER -> mk(B, C0, <<Con1(B, 10, C0)>>, 10)
Init ==
  /\ lz = LZ0
  /\ LET s == Starts
     IN IF s.c = <<>> /\ s.k \in Pers
        THEN /\ heap = InitHeap @@ (10 :> Obj0(s.k, <<>>))
             /\ prov = [i \in {1, 2, 3, 4, 5, 10} |-> <<0, "", 0>>]
             /\ path = s.p /\ nextid = 11
        ELSE /\ heap = InitHeap @@ (10 :> Obj0(s.k, s.c))
             /\ prov = [i \in {1, 2, 3, 4, 5, 10} |-> <<0, "", 0>>]
             /\ path = s.p /\ nextid = 11
P0 == Len(Starts.p)
Depth == Len(path) - P0
Next ==
  /\ Depth < MaxDepth
  /\ \E c \in Menu : Do(c)
Spec == Init /\ [][Next]_vars
View == <<heap, lz, prov>>

-----------------------------------------------------------------------------
(* The properties, in the large.                                           *)
\* C01: what a persistent collection holds never changes
PersistentStays == \A i \in DOMAIN heap : heap[i].k \in Pers =>
                      (i \in DOMAIN heap' /\ heap'[i].c = heap[i].c /\ heap'[i].k = heap[i].k)
\* C08: a call changes at most its receiver
OthersStay ==
  LET last == path'[Len(path')]
  IN \A i \in DOMAIN heap : heap[i].k # "it" /\ (last.op = "con" \/ Lab(i) # last.r) => heap'[i] = heap[i]
\* C12, C14: lazy values become ready once
LazyOnce == \A j \in Idx(lz) : lz[j].rdy = 1 => lz'[j] = lz[j]
Steps == [][path' # path => PersistentStays /\ OthersStay /\ LazyOnce]_vars

KindsOk == \A i \in Objs : heap[i].k \in Kinds
DistinctOk == \A i \in Objs :
  IF B \in SetK THEN Cardinality(EqSet(heap[i].c)) = Len(heap[i].c)
  ELSE B \in MapK => Cardinality(EqSet(Keys(heap[i].c))) = Len(heap[i].c)
\* C08, C15: a snapshot or copy starts with what its source holds, and two
\* snapshots with nothing between them are equal
SnapOk == \A i, j \in Objs :
  (prov[i][2] \in {"persistent", "copy", "transient"} /\ prov[j][2] \in {"persistent", "copy", "transient"}
   /\ prov[i][1] = prov[j][1] /\ prov[i][3] = prov[j][3] /\ heap[i].mv = 0 /\ heap[j].mv = 0)
    => Der(heap[i].k, heap[i].c) = Der(heap[j].k, heap[j].c)
\* C09, C10: equality is an equivalence and decides the canonical form that is hashed
EqOk == \A i, j \in Objs :
  LET (* contents *) di == Der(heap[i].k, heap[i].c)
      dj == Der(heap[j].k, heap[j].c)
      e == SameContents(heap[i].k, di, heap[j].k, dj)
  IN /\ e = SameContents(heap[j].k, dj, heap[i].k, di)
     /\ e = (CanonOf(heap[i].k, di) = CanonOf(heap[j].k, dj))
\* C17: an iterator over something that nothing changed delivers what it held
IterOk == \A i \in Its :
  LET o == heap[i]
      src == heap[o.src]
  IN (src.mv = o.mv) => o.c = IterItems(o.mode, src.k, src.c)

Probe ==
  LET t == {i \in Objs : heap[i].k \in Trans}
      p == {i \in Objs : heap[i].k \in Pers}
  IN IF Fam = "share"
     THEN SetToSeq({Call0("persistent", Lab(i)) : i \in t}) \o SetToSeq({Call0("transient", Lab(i)) : i \in p})
          \o SetToSeq({Call0("copy", Lab(i)) : i \in t})
     ELSE FlattenSeq(SetToSeq({[j \in 1..(Len(heap[i].c) + 2 - heap[i].pos) |->
                                 [Call0("next", Lab(i)) EXCEPT !.s = heap[i].mode]] :
                               i \in {q \in Its : heap[q].pos <= Len(heap[q].c) + 1}}))
Emit == Depth = 0 \/ ~Chosen(Seed, OneIn)
        \/ PrintScene([line |-> path \o Probe])
=============================================================================
