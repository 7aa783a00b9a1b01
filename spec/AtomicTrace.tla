----------------------------- MODULE AtomicTrace -----------------------------
(***************************************************************************)
(* Validates what threads recorded while they used one schema concurrently. *)
(* Events are ordered by the number of updates their thread saw (`at`).     *)
(* Each also says how many updates had returned before it began (`lo`) and  *)
(* how many had started to commit when it ended (`hi`): what it saw has to  *)
(* lie between them, so that the order found is one of real time, too.      *)
(***************************************************************************)
EXTENDS Atomic, TLC, Json, IOUtils

CONSTANTS Mask, Mode
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
core == avars

Timely(e) == e.at = n /\ e.lo <= e.at /\ e.at <= e.hi
Matches(e) == Timely(e) /\ e.s = g

Act(e) ==
    CASE e.a = "Init"    -> n' = 0 /\ g' = [i \in Groups |-> 0]
      [] e.a = "Observe" -> Matches(e) /\ UNCHANGED avars
      \* a transaction that failed or panicked: no step at all
      [] e.a = "Attempt" -> Matches(e) /\ UNCHANGED avars
      [] e.a = "Update"  -> Matches(e) /\ Update(e.eff)

TraceInit == AInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Act(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<avars, l>>
TraceView == <<core, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
