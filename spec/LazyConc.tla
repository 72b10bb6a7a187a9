------------------------------ MODULE LazyConc ------------------------------
(***************************************************************************)
(* How lazy values are evaluated by concurrent threads (pcollections/      *)
(* _lazy.py, lazy.__call__): double-checked locking with one reentrant     *)
(* lock per lazy value.                                                    *)
(*                                                                         *)
(*   ask   read self.partial (is_ready)                                    *)
(*   r1    read self.partial; if it is None, read self.value (rv)          *)
(*   acq   acquire the lock                                                *)
(*   r2    read self.partial again; if it is None, take self.value         *)
(*   call  call the function, which first requests the lazy values that it *)
(*         depends on (deps) and then returns or raises (fin)              *)
(*   setv  store the value;  setp  set partial to None                     *)
(*   rel   release the lock and return;  relx  release it and raise        *)
(*                                                                         *)
(* Each of these is one atomic step.  The model is checked against the     *)
(* observer of LazyObs: none of its clauses may fail in any interleaving,  *)
(* and every thread ends (no deadlock).  Design changes the algorithm to   *)
(* show that the clauses can fail: see the variants below.                 *)
(*                                                                         *)
(* A scenario is [dep |-> lazy values that each one requests, fail |->     *)
(* how often each fails first, fk |-> "E" or "B", hand |-> whether each    *)
(* has other threads request its dependencies and waits for them, prog |-> *)
(* for each thread, the lazy values it requests (-j: asks whether j is     *)
(* ready)].  The thread that a function run by thread t starts is thread   *)
(* t + Len(prog).                                                          *)
(***************************************************************************)
EXTENDS LazyObs, TLC, Json

CONSTANTS Design,     \* "lib", or a broken design
          Scenarios,  \* the scenarios explored
          TrackH      \* TRUE: keep and print the visible histories

VARIABLES sc, stack, at, partial, value, calls, owner, depth, obs, bad, h
vars == <<sc, stack, at, partial, value, calls, owner, depth, obs, bad, h>>

N == Len(sc.dep)
NT == Len(sc.prog)
Progs == 1..NT
Threads == 1..(NT * (1 + N))
Frame(j) == [j |-> j, pc |-> "r1", d |-> 1, run |-> 0, x |-> ""]

Init ==
  /\ sc \in Scenarios
  /\ stack = [t \in Threads |-> <<>>]
  /\ at = [t \in Progs |-> 1]
  /\ partial = [j \in 1..N |-> TRUE]
  /\ value = [j \in 1..N |-> 0]
  /\ calls = [j \in 1..N |-> 0]
  /\ owner = [j \in 1..N |-> 0]
  /\ depth = [j \in 1..N |-> 0]
  /\ obs = ObsInit(N, Threads)
  /\ bad = {}
  /\ h = <<>>

Ev(t, ev, js, vs, x) == [t |-> t, ev |-> ev, js |-> js, vs |-> vs, x |-> x]
See(e) ==
  /\ bad' = bad \cup ObsBad(obs, e)
  /\ obs' = ObsNext(obs, e)
  /\ h' = IF TrackH THEN Append(h, <<e.t, e.ev, e.js[1]>>) ELSE h
Quiet == UNCHANGED <<bad, obs, h>>
Top(t) == TopOf(stack[t])
Goto(t, pc) == stack' = [stack EXCEPT ![t][Len(stack[t])].pc = pc]
At(t, pc) == stack[t] # <<>> /\ Top(t).pc = pc
Pop(t) == PopOf(stack[t])

Start(t) ==
  /\ t \in Progs
  /\ stack[t] = <<>>
  /\ at[t] <= Len(sc.prog[t])
  /\ LET j == sc.prog[t][at[t]]
     IN IF j > 0
        THEN /\ stack' = [stack EXCEPT ![t] = <<Frame(j)>>]
             /\ See(Ev(t, "req", <<j>>, <<>>, ""))
        ELSE /\ stack' = [stack EXCEPT ![t] = <<[Frame(-j) EXCEPT !.pc = "ask"]>>]
             /\ See(Ev(t, "ask", <<-j>>, <<>>, ""))
  /\ at' = [at EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<sc, partial, value, calls, owner, depth>>

Ready1(t) ==
  /\ At(t, "ask")
  /\ See(Ev(t, "rdy", <<Top(t).j>>, <<IF partial[Top(t).j] THEN 0 ELSE 1>>, ""))
  /\ stack' = [stack EXCEPT ![t] = <<>>]
  /\ UNCHANGED <<sc, at, partial, value, calls, owner, depth>>

R1(t) ==
  /\ At(t, "r1")
  /\ IF Design = "staleread"
     THEN stack' = [stack EXCEPT ![t][Len(stack[t])] = [@ EXCEPT !.pc = "r1b", !.run = value[Top(t).j]]]
     ELSE Goto(t, IF partial[Top(t).j] THEN "acq" ELSE "rv")
  /\ Quiet
  /\ UNCHANGED <<sc, at, partial, value, calls, owner, depth>>

\* The end of a request, with exception x or (x = "") a result.  An Exception
\* of the requested value's function is one of the requester's.
Finish(t, x) ==
  LET rest == Pop(t)
      n == Len(rest)
      m == Len(stack[t - NT])
  IN stack' = IF n # 0 THEN [stack EXCEPT ![t] = [rest EXCEPT ![n].x = x]]
              ELSE IF t \in Progs THEN [stack EXCEPT ![t] = rest]
              ELSE [stack EXCEPT ![t] = rest, ![t - NT][m] = [@ EXCEPT !.pc = "deps", !.x = x]]
\* Return value v to whoever asked.
Return(t, v) ==
  /\ Finish(t, "")
  /\ See(Ev(t, "ret", <<Top(t).j>>, <<v>>, ""))

\* (only in the design that reads the value first)
R1b(t) ==
  /\ At(t, "r1b")
  /\ IF partial[Top(t).j] THEN Goto(t, "acq") /\ Quiet ELSE Return(t, Top(t).run)
  /\ UNCHANGED <<sc, at, partial, value, calls, owner, depth>>

RV(t) ==
  /\ At(t, "rv")
  /\ Return(t, value[Top(t).j])
  /\ UNCHANGED <<sc, at, partial, value, calls, owner, depth>>

\* Which lock a lazy value has: its own, in the library.
LockOf(j) == CASE Design = "onelock" -> 1
               [] Design = "stripes" /\ N > 1 -> (j % 2) + 1
               [] OTHER -> j
Acq(t) ==
  /\ At(t, "acq")
  /\ LET j == LockOf(Top(t).j)
     IN IF Design = "nolock" THEN UNCHANGED <<owner, depth>>
        ELSE /\ owner[j] \in {0, t}
             /\ owner' = [owner EXCEPT ![j] = t]
             /\ depth' = [depth EXCEPT ![j] = @ + 1]
  /\ Goto(t, IF Design = "norecheck" THEN "call" ELSE "r2")
  /\ Quiet
  /\ UNCHANGED <<sc, at, partial, value, calls>>

R2(t) ==
  /\ At(t, "r2")
  /\ Goto(t, IF partial[Top(t).j] THEN "call" ELSE "rel")
  /\ Quiet
  /\ UNCHANGED <<sc, at, partial, value, calls, owner, depth>>

Run(t) ==
  /\ At(t, "call")
  /\ LET j == Top(t).j
         r == calls[j] + 1
     IN /\ calls' = [calls EXCEPT ![j] = r]
        /\ stack' = [stack EXCEPT ![t][Len(stack[t])] = [@ EXCEPT !.pc = "deps", !.run = r]]
        /\ See(Ev(t, "fn", <<j>>, <<r>>, ""))
  /\ UNCHANGED <<sc, at, partial, value, owner, depth>>

Deps(t) ==
  /\ At(t, "deps")
  /\ Top(t).x = ""
  /\ Top(t).d <= Len(sc.dep[Top(t).j])
  /\ LET d == sc.dep[Top(t).j][Top(t).d]
     IN IF sc.hand[Top(t).j]
        THEN \* another thread makes the request
             /\ stack' = [stack EXCEPT ![t][Len(stack[t])] = [@ EXCEPT !.pc = "wait", !.d = @ + 1],
                                       ![t + NT] = <<[Frame(d) EXCEPT !.pc = "new"]>>]
             /\ Quiet
        ELSE /\ stack' = [stack EXCEPT ![t] =
                            Append([@ EXCEPT ![Len(@)].d = @ + 1], Frame(d))]
             /\ See(Ev(t, "req", <<d>>, <<>>, ""))
  /\ UNCHANGED <<sc, at, partial, value, calls, owner, depth>>

Hand(t) ==
  /\ At(t, "new")
  /\ Goto(t, "r1")
  /\ See(Ev(t, "req", <<Top(t).j>>, <<>>, ""))
  /\ UNCHANGED <<sc, at, partial, value, calls, owner, depth>>

Fin(t) ==
  /\ At(t, "deps")
  /\ Top(t).x # "" \/ Top(t).d > Len(sc.dep[Top(t).j])
  /\ LET j == Top(t).j
         fail == Top(t).x # "" \/ Top(t).run <= sc.fail[j]
         x == IF Top(t).x # "" THEN Top(t).x ELSE sc.fk[j]
     IN IF fail
        THEN /\ stack' = [stack EXCEPT ![t][Len(stack[t])] =
                            [@ EXCEPT !.pc = IF Design = "failready" THEN "setv" ELSE "relx", !.x = x]]
             /\ See(Ev(t, "fnfail", <<j>>, <<>>, x))
        ELSE /\ Goto(t, IF Design = "readyfirst" THEN "setp" ELSE "setv")
             /\ See(Ev(t, "fnok", <<j>>, <<Top(t).run>>, ""))
  /\ UNCHANGED <<sc, at, partial, value, calls, owner, depth>>

SetV(t) ==
  /\ At(t, "setv")
  /\ value' = [value EXCEPT ![Top(t).j] = Top(t).run]
  /\ Goto(t, IF Design = "readyfirst" THEN "rel" ELSE "setp")
  /\ Quiet
  /\ UNCHANGED <<sc, at, partial, calls, owner, depth>>

SetP(t) ==
  /\ At(t, "setp")
  /\ partial' = [partial EXCEPT ![Top(t).j] = FALSE]
  /\ Goto(t, IF Design = "readyfirst" THEN "setv" ELSE IF Top(t).x # "" THEN "relx" ELSE "rel")
  /\ Quiet
  /\ UNCHANGED <<sc, at, value, calls, owner, depth>>

Unlock(j) ==
  IF Design = "nolock" THEN UNCHANGED <<owner, depth>>
  ELSE LET i == LockOf(j)
       IN /\ depth' = [depth EXCEPT ![i] = @ - 1]
          /\ owner' = [owner EXCEPT ![i] = IF depth[i] = 1 THEN 0 ELSE @]

Rel(t) ==
  /\ At(t, "rel")
  /\ Unlock(Top(t).j)
  /\ Return(t, value[Top(t).j])
  /\ UNCHANGED <<sc, at, partial, value, calls>>

RelX(t) ==
  /\ At(t, "relx")
  /\ IF Design = "keeplock" THEN UNCHANGED <<owner, depth>> ELSE Unlock(Top(t).j)
  /\ Finish(t, Top(t).x)
  /\ See(Ev(t, "err", <<Top(t).j>>, <<>>, IF Top(t).x = "E" THEN "LazyError" ELSE "Base"))
  /\ UNCHANGED <<sc, at, partial, value, calls>>

Done == \A t \in Threads : stack[t] = <<>> /\ (t \in Progs => at[t] > Len(sc.prog[t]))
End == Done /\ UNCHANGED vars

Step(t) == \/ Start(t) \/ Ready1(t) \/ R1(t) \/ R1b(t) \/ RV(t) \/ Acq(t) \/ R2(t) \/ Run(t) \/ Deps(t) \/ Hand(t) \/ Fin(t)
           \/ SetV(t) \/ SetP(t) \/ Rel(t) \/ RelX(t)
Next == (\E t \in Threads : Step(t)) \/ End
\* (no behaviour goes round in a circle, so this much fairness is enough)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E t \in Threads : Step(t))

-----------------------------------------------------------------------------
NeverBad == bad = {}
AllEnd == <>Done
\* The lock of a lazy value is held by at most one thread, who is inside.
Locks ==
  \A j \in 1..N :
    /\ (depth[j] = 0) = (owner[j] = 0)
    /\ owner[j] # 0 => \E i \in 1..Len(stack[owner[j]]) : LockOf(stack[owner[j]][i].j) = j
\* A value is ready exactly when it has been stored, and is then the first success.
Ready == \A j \in 1..N : ~partial[j] => value[j] # 0 /\ value[j] = obs.ok[j]
Emit == (TrackH /\ Done) => PrintT("HIST " \o ToJson([sc |-> sc, h |-> h]))
=============================================================================
