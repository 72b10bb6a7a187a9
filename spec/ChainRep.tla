------------------------------ MODULE ChainRep ------------------------------
(***************************************************************************)
(* The representation of dicts and sets: entries in numbered slots (els),  *)
(* in insertion order; an index (idx) from each hash to the first slot of  *)
(* the entries with that hash, which are chained; top, the next free slot. *)
(* A transient remembers the persistent collection that it was made from   *)
(* (orig) until it is edited.  A set is a dict without the values.         *)
(*                                                                         *)
(* Keys are 1..NK; all but the last have the same hash.  NK + 1 is another *)
(* key with that hash, which is never inserted on the way to a state;      *)
(* 100 + k stands for an equal copy of key k.                              *)
(*                                                                         *)
(* Checked: the entries in slot order are the contents c that MapSem says, *)
(* each chain links exactly the entries of its hash in insertion order,    *)
(* and orig, when remembered, has the contents of the transient.           *)
(* Every state is printed as scenes for the real library.                  *)
(***************************************************************************)
EXTENDS MapSem, Scenes

CONSTANTS NK, MaxTop,
          BugCut,    \* demonstration: TRUE forgets the rest of a chain when its first entry goes
          BugOrig,   \* demonstration: TRUE keeps orig over the removal of a later entry of a chain
          OneIn,     \* emit one in so many states
          Most,      \* the most calls of each menu
          Seed

VARIABLES kind, els, idx, top, orig, c, cnt, lab, pre, suf
vars == <<kind, els, idx, top, orig, c, cnt, lab, pre, suf>>

Ks == 1..NK
H(k) == IF k = NK THEN 2 ELSE 1
NO == 0
New == 1000 + cnt
Slots == SetToSortSeq(DOMAIN els, <)

Put(g, k, v) == (k :> v) @@ g
Cut(g, S) == [j \in DOMAIN g \ S |-> g[j]]
First(h) == IF h \in DOMAIN idx THEN idx[h] ELSE NO
\* The slots of a chain, from slot s on
RECURSIVE ChainFrom(_)
ChainFrom(s) == IF s = NO THEN <<>> ELSE <<s>> \o ChainFrom(els[s].nx)
Chain(h) == ChainFrom(First(h))
Where(k) == {i \in Idx(Chain(H(k))) : els[Chain(H(k))[i]].k = k}

\* [els, idx, top] after setting k to v, and after dropping k
SetRep(k, v) ==
  LET ch == Chain(H(k))
      e == [k |-> k, v |-> v, nx |-> NO]
  IN IF ch = <<>> THEN [els |-> Put(els, top, e), idx |-> Put(idx, H(k), top), top |-> top + 1]
     ELSE IF Where(k) # {}
     THEN LET s == ch[MinOf(Where(k))]
          IN [els |-> [els EXCEPT ![s].v = v], idx |-> idx, top |-> top]
     ELSE [els |-> Put([els EXCEPT ![ch[Len(ch)]].nx = top], top, e), idx |-> idx, top |-> top + 1]
DropRep(k) ==
  LET ch == Chain(H(k))
      i == MinOf(Where(k))
      s == ch[i]
      nx == els[s].nx
  IN IF i = 1
     THEN [els |-> Cut(els, {s}),
           idx |-> IF nx = NO \/ BugCut THEN Cut(idx, {H(k)}) ELSE Put(idx, H(k), nx), top |-> top]
     ELSE [els |-> Cut([els EXCEPT ![ch[i - 1]].nx = nx], {s}), idx |-> idx, top |-> top]

-----------------------------------------------------------------------------
Init ==
  /\ kind = "no" /\ els = <<>> /\ idx = <<>> /\ top = 1 /\ orig = <<>> /\ c = <<>> /\ cnt = 0
  /\ lab = 0 /\ pre = <<>> /\ suf = <<>>
Make ==
  /\ kind = "no"
  /\ kind' = "p" /\ lab' = 1
  /\ pre' = <<Con("pd", Nat_("P", <<>>), Label(1))>>
  /\ UNCHANGED <<els, idx, top, orig, c, cnt, suf>>
Cur == Label(lab)
Edited(call, rep, c2, new, keep) ==
  /\ els' = rep.els /\ idx' = rep.idx /\ top' = rep.top /\ c' = c2
  /\ cnt' = cnt + new
  /\ kind' = kind
  /\ IF kind = "p"
     THEN /\ lab' = lab + 1
          /\ pre' = Append(pre, As(call, Label(lab + 1)))
          /\ UNCHANGED <<suf, orig>>
     ELSE /\ suf' = Append(suf, call)
          /\ orig' = IF keep THEN orig ELSE <<>>
          /\ UNCHANGED <<lab, pre>>
SetStep ==
  /\ kind # "no"
  /\ \E k \in Ks :
       /\ MHas(c, k) \/ top <= MaxTop
       /\ Edited(CallA("set", Cur, <<k, New>>), SetRep(k, New), MSet(c, k, New), 1, FALSE)
DropStep ==
  /\ kind # "no"
  /\ \E k \in Ks :
       /\ MHas(c, k)
       /\ Edited(CallA("delete", Cur, <<k>>), DropRep(k), MDrop(c, k), 0,
                 BugOrig /\ MinOf(Where(k)) > 1)
Thaw ==
  /\ kind = "p"
  /\ kind' = "t" /\ lab' = lab + 1
  /\ orig' = <<c>>
  /\ suf' = <<As(Call0("transient", Cur), Label(lab + 1))>>
  /\ UNCHANGED <<els, idx, top, c, cnt, pre>>
Next == Make \/ SetStep \/ DropStep \/ Thaw
Spec == Init /\ [][Next]_vars
OrigSound == orig # <<>> => orig[1] = c
View == <<kind, [s \in DOMAIN els |-> <<els[s].k, els[s].nx>>], idx, top, orig # <<>>, OrigSound>>

Refines == c = [i \in 1..Cardinality(DOMAIN els) |-> <<els[Slots[i]].k, els[Slots[i]].v>>]
Chains ==
  /\ \A h \in 1..2 :
       Chain(h) = SelectSeq(Slots, LAMBDA s : H(els[s].k) = h)
  /\ \A k \in Ks : (Where(k) # {}) = MHas(c, k)
  /\ \A s \in DOMAIN els : s < top

-----------------------------------------------------------------------------
(* What to try on an object with contents c.                               *)
X == 2599
KX == NK + 1            \* a key that is not there
Bad == 1000000          \* stands for an unhashable value
Qs == Ks \cup {KX}
Tw == {100 + k : k \in 1..Min2(2, NK)}
ks == Keys(c)
A(op, a) == CallA(op, Cur, a)
L(op, k, s) == CallX(op, Cur, <<Nat_(k, s)>>)
Seqs1 == {<<a>> : a \in Qs} \cup {<<>>}
Seqs2 == Seqs1 \cup {<<a, b>> : a \in Qs, b \in Qs}
PairsOf1(s) == [i \in Idx(s) |-> <<s[i], X + 1 - i>>]
Modes == {"keys", "values", "items"}
MEdits ==
  {A("set", <<k, X>>) : k \in Qs \cup Tw \cup {Bad}}
  \cup {A("set", <<c[i][1], c[i][2]>>) : i \in Idx(c)}
  \cup {A("delete", <<k>>) : k \in Qs \cup Tw \cup {Bad}}
  \cup {A("pop", <<k>>) : k \in Qs \cup Tw} \cup {A("pop", <<k, X>>) : k \in Qs \cup {Bad}}
  \cup {A("popitem", <<>>), A("clear", <<>>)}
  \cup {A("setdefault", <<k>>) : k \in Qs} \cup {A("setdefault", <<k, X>>) : k \in Qs \cup Tw}
  \cup {L("update", k, PairsOf1(s)) : k \in {"P", "GP", "XP"}, s \in Seqs2}
  \cup {L("update", "D", PairsOf1(s)) : s \in Seqs1}
  \cup {CallX("update", Cur, <<Obj_(Cur)>>)}
  \cup IF kind = "p"
       THEN {A("drop", <<k>>) : k \in Qs \cup Tw \cup {Bad}}
            \cup {L(op, "L", s) : op \in {"dropall", "deleteall"}, s \in Seqs2}
            \cup {CallX(op, Cur, <<Obj_(Cur)>>) : op \in {"dropall", "deleteall"}}
            \cup {CallX("setall", Cur, <<Nat_("L", s), Nat_("G", [i \in Idx(s) |-> X - i])>>) : s \in Seqs1}
       ELSE {}
MReads ==
  {A("getitem", <<k>>) : k \in Qs \cup Tw \cup {Bad}}
  \cup {A("get", <<k>>) : k \in Qs \cup Tw \cup {Bad}} \cup {A("get", <<k, X>>) : k \in Qs}
  \cup {A("contains", <<k>>) : k \in Qs \cup Tw \cup {Bad}}
  \cup {CallSA(op, Cur, m, <<>>) : op \in {"vlist", "vrev", "vlen", "vrepr"}, m \in Modes}
  \cup {CallSA("vcontains", Cur, "keys", <<k>>) : k \in Qs}
  \cup {CallSA("vcontains", Cur, "values", <<v>>) : v \in RangeOf(Vals(c)) \cup {X}}
  \cup {CallSA("vcontains", Cur, "items", <<k, v>>) : k \in Qs, v \in RangeOf(Vals(c)) \cup {X}}
  \cup {CallSX(op, Cur, "keys", <<Nat_("S", s)>>) : op \in {"vand", "vor", "vsub", "vxor", "vrsub", "veq",
          "vle", "vlt", "vge", "vgt", "vdisj"}, s \in {ks, <<KX>>, Append(ks, KX)}}
  \cup {CallX("eq", Cur, <<Nat_("D", s)>>) : s \in {c, Rev(c), Append(c, <<KX, X>>), PairsOf1(ks)}}
  \cup {A(op, <<>>) : op \in {"rev", "list", "str", "repr", "copycopy", "deepcopy", "copy", "len", "bool"}}
  \cup {A("pickle", <<i>>) : i \in 0..5} \cup {A("xpickle", <<2>>)}
  \cup {CallS("iter", Cur, s) : s \in {"fwd", "rev", "keys", "values", "items", "rkeys", "rvalues", "ritems"}}
  \cup IF kind = "p" THEN {A(op, <<>>) : op \in {"transient", "hash"}} ELSE {A("persistent", <<>>)}
SEdits ==
  {A(op, <<k>>) : op \in {"add", "discard", "remove"}, k \in Qs \cup Tw \cup {Bad}}
  \cup {A("pop", <<>>), A("clear", <<>>)}
  \cup {L(op, k, s) : op \in {"addall", "discardall", "removeall"}, k \in {"L", "G", "X"}, s \in Seqs2}
  \cup {CallX(op, Cur, <<Obj_(Cur)>>) : op \in {"addall", "discardall", "removeall"}}
  \cup IF kind = "p" THEN {}
       ELSE {L(op, k, s) : op \in {"update", "intersection_update", "difference_update", "symdiff_update"},
                           k \in {"L", "S", "G"}, s \in Seqs1 \cup {ks, Append(ks, KX)}}
            \cup {L(op, "S", s) : op \in {"ior", "iand", "isub", "ixor"}, s \in Seqs1 \cup {ks, Append(ks, KX)}}
            \cup {CallX(op, Cur, <<Obj_(Cur)>>) : op \in {"ior", "iand", "isub", "ixor", "update",
                    "intersection_update", "difference_update", "symdiff_update"}}
SReads ==
  {A("contains", <<k>>) : k \in Qs \cup Tw \cup {Bad}}
  \cup {L(op, k, s) : op \in {"union", "intersection", "difference", "symdiff", "isdisjoint", "issubset",
          "issuperset"}, k \in {"L", "S", "G"}, s \in Seqs1 \cup {ks, Append(ks, KX)}}
  \cup {L(op, "S", s) : op \in {"or", "and", "sub", "xor", "ror", "rand", "rsub", "rxor"},
          s \in Seqs1 \cup {ks, Append(ks, KX)}}
  \cup {CallX(op, Cur, <<Obj_(Cur)>>) : op \in {"or", "and", "sub", "xor", "union", "intersection",
          "difference", "symdiff", "isdisjoint", "issubset", "issuperset", "eq"}}
  \cup {CallX(op, Cur, <<Nat_("S", s), Nat_("L", t)>>) :
          op \in {"union", "intersection", "difference"}, s \in {<<KX>>, ks}, t \in Seqs1}
  \cup {[CallSX("cmp", Cur, s, <<Nat_("S", t)>>) EXCEPT !.a = <<0>>] : s \in {"lt", "le", "gt", "ge"},
          t \in Seqs1 \cup {ks, Append(ks, KX)}}
  \cup {L("eq", "S", s) : s \in Seqs1 \cup {ks, Append(ks, KX)}}
  \cup {A(op, <<>>) : op \in {"list", "str", "repr", "copycopy", "deepcopy", "copy", "len", "bool"}}
  \cup {A("pickle", <<i>>) : i \in 0..5} \cup {A("xpickle", <<2>>)}
  \cup {CallS("iter", Cur, "fwd")}
  \cup IF kind = "p" THEN {A(op, <<>>) : op \in {"transient", "hash"}} ELSE {A("persistent", <<>>)}
\* After an edit of a transient: its snapshot, more edits, the snapshot again
After(add) ==
  IF kind = "t" THEN <<Call0("persistent", Cur), add, Call0("persistent", Cur)>> ELSE <<>>
Emit ==
  kind = "no" \/ ~Chosen(Seed, OneIn)
  \/ PrintScene([pre |-> pre, suf |-> suf,
                 edits |-> Pick(Seed, Most, MEdits), reads |-> Pick(Seed, Most, MReads),
                 tail |-> After(A("set", <<KX, X - 5>>)),
                 sedits |-> Pick(Seed, Most, SEdits), sreads |-> Pick(Seed, Most, SReads),
                 stail |-> After(A("add", <<KX>>))])
=============================================================================
