------------------------------ MODULE LazyTrace ------------------------------
(***************************************************************************)
(* Conformance of the concurrent evaluation of lazy values: recorded       *)
(* executions of the real code under chosen schedules (harness/conc.py),   *)
(* one event per line in the order in which they happened (one thread runs *)
(* at a time), fed to the observer of LazyObs.  "begin" starts another     *)
(* execution; the verdict is total, as in CollTrace.                       *)
(***************************************************************************)
EXTENDS LazyObs, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.PC_TRACE)
VARIABLES l, obs
vars == <<l, obs>>

Init == l = 1 /\ obs = ObsInit(0, {})
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN IF e.ev = "begin" THEN obs' = ObsInit(e.vs[1], 1..e.t)
        ELSE LET bad == ObsBad(obs, e)
             IN /\ \A c \in bad : PrintT("VERDICT " \o ToJson([l |-> l, clause |-> c, ev |-> e.ev]))
                /\ obs' = ObsNext(obs, e)
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
