------------------------------ MODULE CollTrace ------------------------------
(***************************************************************************)
(* Conformance: is a recorded history of the real library a behaviour of   *)
(* the state machine Collections?                                          *)
(*                                                                         *)
(* The trace has one line per call (see harness/driver.py): the operation  *)
(* op on object r with integers a, arguments xs, keywords kw and text s;   *)
(* the result res; the new objects nw with their kinds; o, the contents    *)
(* (every reading of them that differs) of each object observed after the  *)
(* call that is new, was the receiver, or is no longer what it was; lzo,   *)
(* the lazy values that were called; full = 1 if every live object was     *)
(* observed.  Each step is the action Outcome of the state machine, bound  *)
(* to what was logged.                                                     *)
(*                                                                         *)
(* The verdict is total: a step that the specification does not allow is   *)
(* printed with the clauses that fail and the properties that they break,  *)
(* the state is resynchronised with what was observed, and the rest of the *)
(* trace is still checked.                                                 *)
(***************************************************************************)
EXTENDS Collections

Trace == ndJsonDeserialize(IOEnv.PC_TRACE)

VARIABLES l, hs     \* hs: the hashes seen, as <<family, contents, hash>>
vars == <<heap, lz, l, hs>>

-----------------------------------------------------------------------------
(* Comparing what was observed (x) with what is expected (y).              *)
WeakTok(k, x, y) ==
  \/ x = y
  \/ IsLazy(y) /\ x = DT(y)
  \/ k \in LazyK /\ IsLazy(x) /\ DT(x) = y
Look(t) == IF IsLazy(t) \/ t < 0 THEN "?" ELSE Repr(t)
PairW(k, x, y) == EqC(x[1]) = EqC(y[1]) /\ WeakTok(k, x[2], y[2])
PairQ(x, y) == Look(x[1]) = Look(y[1]) /\ Look(x[2]) = Look(y[2])
Match(mode, k, x, y) ==
  CASE mode = "x" -> x = y
    [] mode = "w" -> Len(x) = Len(y) /\ \A i \in Idx(x) : WeakTok(k, x[i], y[i])
    [] mode = "q" -> Len(x) = Len(y) /\ \A i \in Idx(x) : Look(x[i]) = Look(y[i])
    [] mode = "e" -> Len(x) = Len(y) /\ \A i \in Idx(x) : EqC(x[i]) = EqC(y[i])
    [] mode = "s" -> Len(x) = Len(y) /\ EqSet(x) = EqSet(y) /\ Cardinality(EqSet(x)) = Len(x)
    [] mode = "sq" -> Len(x) = Len(y) /\ {Look(x[i]) : i \in Idx(x)} = {Look(y[i]) : i \in Idx(y)}
    [] mode = "b" -> /\ Len(x) = Len(y)
                     /\ \A i \in Idx(x) : Cardinality({j \in Idx(x) : EqC(x[j]) = EqC(x[i])})
                                          = Cardinality({j \in Idx(y) : EqC(y[j]) = EqC(x[i])})
    [] mode = "m" -> Len(x) = Len(y) /\ \A i \in Idx(x) : EqC(x[i][1]) = EqC(y[i][1]) /\ x[i][2] = y[i][2]
    [] mode = "mw" -> Len(x) = Len(y) /\ \A i \in Idx(x) : PairW(k, x[i], y[i])
    [] mode = "mq" -> Len(x) = Len(y) /\ \A i \in Idx(x) : PairQ(x[i], y[i])
    [] mode = "sub" -> Len(x) = 1 /\ \E i \in Idx(y) : EqC(x[1]) = EqC(y[i])
    [] mode = "subm" -> Len(x) = 2 /\ \E i \in Idx(y) : EqC(x[1]) = EqC(y[i][1]) /\ x[2] = y[i][2]
    [] mode = "S" -> Cardinality(y) = Len(x) /\ y = EqSet(x)
    [] mode = "SP" -> Cardinality(y) = Len(x) /\ y = {PairC(x[i]) : i \in Idx(x)}
    [] OTHER -> FALSE

\* The same entries in another order (for mappings): only the order is wrong.
SameEntries(mode, k, x, y) ==
  /\ mode \in {"m", "mw"}
  /\ Len(x) = Len(y)
  /\ \A i \in Idx(x) : \E j \in Idx(y) : PairW(k, x[i], y[j])
  /\ \A j \in Idx(y) : \E i \in Idx(x) : PairW(k, x[i], y[j])
  /\ Cardinality({EqC(x[i][1]) : i \in Idx(x)}) = Len(x)
\* The same values, but other lazy objects (or values in place of lazy objects).
SameValues(k, x, y) ==
  /\ k \in LazyK
  /\ Len(x) = Len(y)
  /\ \A i \in Idx(x) : IF k \in MapK
       THEN EqC(x[i][1]) = EqC(y[i][1]) /\ DT(x[i][2]) = DT(y[i][2])
       ELSE DT(x[i]) = DT(y[i])

-----------------------------------------------------------------------------
(* The properties that a failing clause breaks.                            *)
FP(k) == CASE k = "pl" -> {"C02"} [] k = "tl" -> {"C03"} [] k = "ps" -> {"C04"}
           [] k = "ts" -> {"C05"} [] k = "pd" -> {"C06"} [] k = "td" -> {"C07"}
           [] OTHER -> {"C13"}
SerOps == {"json", "pickle", "xpickle", "copycopy", "deepcopy"}
TextOps == {"str", "repr", "vrepr"}
ViewOps == {"iter", "next", "vlist", "vrev", "vlen", "vcontains", "vodd", "vand", "vor", "vsub", "vxor",
            "vrsub", "veq", "vle", "vlt", "vge", "vgt", "vdisj"}
RawOps == {"is_lazy", "is_ready", "getlazy", "hold", "holdlazy", "ready_all"}
Forgiving == {"drop", "discard", "dropall", "discardall", "get", "setdefault"}
FromTrans(e, k) == \E i \in Idx(e.xs) : e.xs[i].id > 0 /\ (k \in Trans \/ heap[e.xs[i].id].k \in Trans)
AnyLazy(e, k) == k \in LazyK \/ \E i \in Idx(e.xs) : AK(e.xs[i]) \in LazyK
Cat(e, k) ==
  CASE e.op \in SerOps -> {"C18"}
    [] e.op \in TextOps -> {"C19"}
    [] e.op \in RawOps -> {"C14", "C13"}
    [] e.op = "misuse" -> {"C01"}
    [] e.op \in {"lzcall", "lznew"} -> {"C12", "C13"}
    [] e.op = "lzready" -> {"C12", "C14"}
    [] e.op = "lzheld" -> {"C14"}
    [] e.op = "unlazy" -> {"C13"}
    [] e.op = "badindex" -> {"C16"}
    [] OTHER ->
       (CASE e.op = "con" -> {"C20"} \cup (IF FromTrans(e, k) THEN {"C08"} ELSE {})
          [] e.op = "eq" -> {"C09"}
          [] e.op \in {"hash", "dictkey"} -> {"C10"}
          [] e.op \in {"cmp", "isdisjoint", "issubset", "issuperset"} -> {"C11"}
          [] e.op \in {"copy", "transient", "persistent"} -> {"C08"}
          [] e.op \in ViewOps -> {"C17"} \cup FP(k)
          [] e.op \in {"list", "rev"} -> {"C17"} \cup FP(k)
          [] OTHER -> FP(k))
       \cup (IF AnyLazy(e, k) THEN {"C13"} ELSE {})

-----------------------------------------------------------------------------
(* One step.                                                               *)
Kind(e) == IF e.op = "con" THEN e.s
           ELSE IF e.r = 0 THEN "lz"
           ELSE IF heap[e.r].k = "it" THEN heap[heap[e.r].src].k ELSE heap[e.r].k
NewIds(e) == {e.nw[i].id : i \in Idx(e.nw)}
NewKind(e, id) == e.nw[CHOOSE i \in Idx(e.nw) : e.nw[i].id = id].k
Logged(e) == {e.o[i].id : i \in Idx(e.o)}
Projs(e, id) == e.o[CHOOSE i \in Idx(e.o) : e.o[i].id = id].p

LzPost(e) ==
  [j \in Idx(lz) |->
     IF \E i \in Idx(e.lzo) : e.lzo[i][1] = j
     THEN LET r == e.lzo[CHOOSE i \in Idx(e.lzo) : e.lzo[i][1] = j]
          IN [lz[j] EXCEPT !.calls = r[2], !.rdy = r[3]]
     ELSE lz[j]]

\* The contents of object id after the call, as observed: a sequence of readings.
Seen(e, id) == IF id \in Logged(e) THEN Projs(e, id) ELSE <<heap[id].c>>
AllMatch(ps, mode, k, y) == \A i \in Idx(ps) : Match(mode, k, ps[i], y)
BadContents(ps, mode, k, y, props) ==   \* the properties broken by these readings
  IF AllMatch(ps, mode, k, y) THEN {}
  ELSE IF \A i \in Idx(ps) : Match(mode, k, ps[i], y) \/ SameEntries(mode, k, ps[i], y)
  THEN {"C17"} \cup (props \ (FP("pd") \cup FP("td") \cup {"C13"}))
  ELSE IF \A i \in Idx(ps) : Match(mode, k, ps[i], y) \/ SameValues(k, ps[i], y) THEN {"C14"}
  ELSE props

\* The failing clauses of a step: a set of <<clause, properties>>.
Clauses(e, o) ==
  LET k == Kind(e)
      isit == e.r # 0 /\ heap[e.r].k = "it"
      pre == IF e.r = 0 \/ isit THEN <<>> ELSE heap[e.r].c
      cat == Cat(e, k)
      lz2 == LzPost(e)
      Called == {j \in Idx(lz) : lz2[j] # lz[j]}
      Failed == {j \in Called : lz2[j].rdy = 0}
      exc == e.res.k = "exc"
      E == e.res.s
      \* the harness made a key raise Boom in the middle of the call
      hit == e.fi = 1
      boom == hit /\ exc /\ E = "Boom"
      C(b, name, props) == IF b /\ props # {} THEN {<<name, props>>} ELSE {}
      forced == C(~(Called \subseteq o.may), "forced", {"C14"} \cup (IF e.op \in TextOps THEN {"C19"} ELSE {}))
      twice == C(\E j \in Called : lz[j].rdy = 1 \/ lz2[j].calls # lz[j].calls + 1
                                   \/ (lz2[j].rdy = 1) # (lz2[j].calls > lz2[j].f),
                 "evaluated-again", {"C12", "C14"})
      normal == Failed = {} /\ ~exc /\ o.ex = {}
      must == C(normal /\ \E j \in o.must : lz2[j].rdy = 0, "not-evaluated", {"C13"})
      lazyerr == C(Failed # {} /\ ~(exc /\ E = "LazyError"), "lazy-error", {"C12", "C13", "C16"})
      noexc == C(Failed = {} /\ o.ex # {} /\ ~exc, "no-exception", {"C16"} \cup cat)
      wrong == C(Failed = {} /\ o.ex # {} /\ exc /\ E \notin o.ex /\ ~boom, "wrong-exception", {"C16"} \cup cat)
      unexc == C(Failed = {} /\ o.ex = {} /\ exc /\ E \notin o.opt /\ ~boom, "unexpected-exception",
                 cat \cup (IF e.op \in Forgiving \/ (e.op = "pop" /\ Len(e.a) = 2) THEN {"C16"} ELSE {}))
      \* the result
      wantk == IF o.rk = "self" THEN "obj" ELSE o.rk
      kindok == e.res.k = wantk
      valok == CASE o.rk \in {"none", "obj", "self", "stop", "hash"} -> TRUE
                 [] o.rk = "str" -> e.res.s \in o.rv
                 [] o.rk \in {"int", "bool", "bools"} -> e.res.v = o.rv
                 [] OTHER -> Match(o.rm, k, e.res.v, o.rv)
      res == C(normal /\ (~kindok \/ ~valok), "result",
               IF o.rk = "pairs" /\ kindok /\ SameEntries("m", k, e.res.v, o.rv) THEN {"C17"}
               ELSE IF kindok \/ o.rk \notin {"obj", "self", "tokobj", "pairobj"} THEN cat
               ELSE cat \cup {"C15"})
      self == C(normal /\ o.rk = "self" /\ kindok /\ e.res.id # e.r, "not-in-place", FP(k) \cup {"C15"})
      hasobj == normal /\ kindok /\ o.rk \in {"obj", "tokobj", "pairobj"}
      id == e.res.id
      isnew == id \in NewIds(e)
      rkind == IF isnew THEN NewKind(e, id) ELSE heap[id].k
      knd == C(hasobj /\ rkind # o.ok, "type",
               {"C15"} \cup (IF e.op = "con" THEN {"C20"} ELSE IF e.op \in SerOps THEN {"C18"}
                          ELSE IF e.op \in RawOps THEN {"C13"} ELSE {}))
      seenobj == IF isnew THEN id \in Logged(e) ELSE id \in Logged(e) \/ id # e.r
      cont == IF hasobj /\ rkind = o.ok /\ seenobj
              THEN LET b == BadContents(Seen(e, id), o.om, o.ok, o.oc,
                          cat \cup (IF isnew /\ k = o.ok /\ e.op # "con" /\ o.oc = pre THEN {"C15"} ELSE {}))
                   IN C(b # {}, "contents", b)
              ELSE {}
      ident == C(hasobj /\ rkind = o.ok /\ o.oid # 0 /\ id # o.oid, "identity",
                 IF e.op \in SerOps THEN {"C18"} ELSE {"C15"})
      alias == C(hasobj /\ o.fresh /\ ~isnew, "not-a-copy",
                 {"C08"} \cup (IF e.op = "con" THEN {"C20"} ELSE IF e.op \in SerOps THEN {"C18"} ELSE {}))
      \* the receiver
      hasrecv == e.r # 0 /\ ~isit /\ (e.full = 1 \/ e.r \in Logged(e))
      free == (Failed # {} \/ boom) /\ k \in Trans /\ e.op \in Bulk
      want == IF Failed # {} \/ boom \/ (exc /\ o.ex = {}) THEN pre ELSE o.post
      wantm == IF k \in Pers THEN "x"
               ELSE IF Failed # {} \/ boom \/ (exc /\ o.ex = {}) \/ o.pm = "x" THEN ModeOf(k)
               ELSE IF o.pm = "w" /\ k \in MapK THEN "mw"
               ELSE IF o.pm = "w" /\ k \in SetK THEN "s" ELSE o.pm
      recv == IF hasrecv /\ ~free
              THEN LET b == BadContents(Seen(e, e.r), wantm, k, want,
                              (IF k \in Pers THEN {"C01"} \cup FP(k) ELSE IF exc THEN {} ELSE
                               (IF e.op \in Mutators THEN cat ELSE FP(k) \cup {"C08"}))
                              \cup (IF exc THEN {"C16"} ELSE {}))
                   IN C(b # {}, "receiver", b)
              ELSE {}
      \* everything else
      Oth == {x \in Logged(e) : x \notin NewIds(e) /\ x # e.r}
      Chg == {x \in Oth : ~AllMatch(Projs(e, x), "x", heap[x].k, heap[x].c)}
      oth == UNION {C(TRUE, "other-object",
                      (IF heap[x].k \in Pers THEN {"C01"} ELSE {}) \cup FP(heap[x].k)
                      \cup (IF k \in Trans \/ heap[x].k \in Trans THEN {"C08"} ELSE {})
                      \cup (IF exc THEN {"C16"} ELSE {})
                      \cup (IF e.op = "con" THEN {"C20"} ELSE {})) : x \in Chg}
      \* hashes
      canon == <<FamOf(k), CanonOf(k, Der(k, pre))>>
      hash == C(normal /\ o.rk = "hash" /\ e.res.k = "hash"
                /\ \E h \in hs : h[1] = canon /\ h[2] # e.res.v[1], "hash", {"C10"})
      \* an argument that is not one of ours is left as it is
      arg == C(e.ac = 1, "argument", cat \cup {"C20"})
  IN arg \cup forced \cup twice \cup must \cup lazyerr \cup noexc \cup wrong \cup unexc \cup res \cup self
     \cup knd \cup cont \cup ident \cup alias \cup recv \cup oth \cup hash

\* The heap afterwards: what the state machine says, with the observed contents.
HeapPost(e, o) ==
  LET exc == e.res.k = "exc"
      failed == \E j \in Idx(lz) : LzPost(e)[j].rdy = 0 /\ LzPost(e)[j] # lz[j]
      isit == e.r # 0 /\ heap[e.r].k = "it"
      boom == e.fi = 1 /\ exc /\ e.res.s = "Boom"
      First(id, c) == IF id \in Logged(e) THEN Projs(e, id)[1] ELSE c
      h1 == IF e.r = 0 THEN heap
            ELSE [heap EXCEPT ![e.r] =
                    Touched(e, @, First(e.r, IF isit \/ failed \/ boom \/ (exc /\ o.ex = {}) THEN @.c ELSE o.post))]
      h2 == [x \in DOMAIN h1 |->
               IF x \in Logged(e) /\ x # e.r /\ h1[x].k # "it" THEN [h1[x] EXCEPT !.c = Projs(e, x)[1]] ELSE h1[x]]
      h3 == IF \A i \in Idx(e.o) : e.o[i].id \notin DOMAIN h1 \/ e.o[i].id = e.r THEN h1 ELSE h2
      New(i) == LET n == e.nw[i]
                IN IF n.k = "it" THEN NewIter(e, heap[e.r])
                   ELSE Obj0(n.k, First(n.id, o.oc))
  IN IF Len(e.nw) = 0 THEN h2
     ELSE FoldLeft(LAMBDA h, i : (e.nw[i].id :> New(i)) @@ h, h2, Ints(Len(e.nw)))

HsPost(e, o) ==
  IF o.rk = "hash" /\ e.res.k = "hash"
  THEN hs \cup {<<<<FamOf(heap[e.r].k), CanonOf(heap[e.r].k, Der(heap[e.r].k, heap[e.r].c))>>, e.res.v[1]>>}
  ELSE hs

Report(e, cl) == \A c \in cl : PrintT("VERDICT " \o ToJson([l |-> l, n |-> e.n, clause |-> c[1], props |-> c[2],
                                                          op |-> e.op, kind |-> Kind(e)]))

Begin(e) ==
  /\ e.op = "begin"
  /\ heap' = InitHeap
  /\ lz' = e.lt
  /\ hs' = {}
Free(e) ==
  /\ e.op = "free"
  /\ heap' = [x \in DOMAIN heap \ RangeOf(e.a) |-> heap[x]]
  /\ UNCHANGED <<lz, hs>>
Call(e) ==
  /\ e.op \notin {"begin", "free"}
  /\ LET o == Outcome(e)
         cl == Clauses(e, o)
     IN /\ IF cl # {} THEN Report(e, cl) ELSE TRUE
        /\ heap' = HeapPost(e, o)
        /\ hs' = HsPost(e, o)
  /\ lz' = LzPost(e)

TraceInit == heap = InitHeap /\ lz = <<>> /\ hs = {} /\ l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN Begin(e) \/ Free(e) \/ Call(e)
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
