------------------------------- MODULE LazyObs -------------------------------
(***************************************************************************)
(* What can be seen of lazy values, and what must never be seen (C12).     *)
(*                                                                         *)
(* Events, as records [t, ev, js, vs, x]: thread t                         *)
(*   req     requests the values of the lazy values js                     *)
(*   ret     gets them: vs, the numbers of the runs that made them (or     *)
(*           none when the operation returns no values)                    *)
(*   err     gets an exception instead: x, "LazyError", "Base" (the        *)
(*           function's non-Exception) or another name                     *)
(*   fn      begins run vs[1] of the function of js[1]                     *)
(*   fnok    that run returns                                              *)
(*   fnfail  that run raises: x, "E" an Exception, "B" another one         *)
(*   ask     asks whether js[1] is ready                                   *)
(*   rdy     is told that js[1] is ready (vs[1] = 1) or not (0)            *)
(*   stuck   every thread waits for another one                            *)
(* Requests nest: a function may request other lazy values.                *)
(*                                                                         *)
(* The observer st remembers, per lazy value, the run that succeeded (ok)  *)
(* and whether it is known to be ready, and per thread the failures seen   *)
(* by each of its open requests, and what was known when it asked.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

ObsInit(n, threads) ==
  [ok |-> [j \in 1..n |-> 0], known |-> {}, stk |-> [t \in threads |-> <<>>],
   asked |-> [t \in threads |-> {}]]

TopOf(s) == s[Len(s)]
PopOf(s) == SubSeq(s, 1, Len(s) - 1)
JS(e) == {e.js[i] : i \in 1..Len(e.js)}

ObsBad(st, e) ==
  LET j == e.js[1]
      fails == TopOf(st.stk[e.t])
      If(b, name) == IF b THEN {name} ELSE {}
  IN
  CASE e.ev = "fn" -> If(j \in st.known, "run-after-ready")
    [] e.ev = "fnok" -> If(st.ok[j] # 0, "second-success")
    [] e.ev = "ret" ->
         If(\E i \in 1..Len(e.js) : st.ok[e.js[i]] = 0
                                    \/ (e.vs # <<>> /\ e.vs[i] # st.ok[e.js[i]]), "wrong-result")
         \cup If(fails # <<>>, "failure-hidden")
    [] e.ev = "err" ->
         IF fails = <<>> THEN {"error-without-failure"}
         ELSE If(e.x # (IF TopOf(fails) = "E" THEN "LazyError" ELSE "Base"), "wrong-error")
    [] e.ev = "rdy" ->
         If(e.vs[1] = 1 /\ st.ok[j] = 0, "ready-too-early")
         \cup If(e.vs[1] = 0 /\ j \in st.asked[e.t], "not-ready-after-result")
    [] e.ev = "stuck" -> {"deadlock"}
    [] OTHER -> {}

ObsNext(st, e) ==
  CASE e.ev = "req" -> [st EXCEPT !.stk[e.t] = Append(@, <<>>)]
    [] e.ev = "fnok" -> [st EXCEPT !.ok[e.js[1]] = IF @ = 0 THEN e.vs[1] ELSE @]
    [] e.ev = "fnfail" ->
         [st EXCEPT !.stk[e.t] = [@ EXCEPT ![Len(@)] = Append(@, e.x)]]
    [] e.ev = "ret" ->
         [st EXCEPT !.known = @ \cup {j \in JS(e) : st.ok[j] # 0}, !.stk[e.t] = PopOf(@)]
    [] e.ev = "ask" -> [st EXCEPT !.asked[e.t] = st.known]
    [] e.ev = "err" -> [st EXCEPT !.stk[e.t] = PopOf(@)]
    [] e.ev = "rdy" -> IF e.vs[1] = 1 /\ st.ok[e.js[1]] # 0
                       THEN [st EXCEPT !.known = @ \cup {e.js[1]}] ELSE st
    [] OTHER -> st
=============================================================================
