-------------------------- MODULE IntervalTreeTrace --------------------------
EXTENDS IntervalTree, IOUtils
CONSTANT Mask
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<tree, bag, hist, l>>
Matches(e) ==
    /\ \A f \in Mask \cap {"q", "i", "m"} : f \in DOMAIN e => e[f] = hist'[1][f]
    /\ "m" \in Mask /\ "x" \in DOMAIN e => e.x.m = Listed(bag')
Act(e) ==
    CASE e.a = "Init"   -> tree' = Nil /\ bag' = Nothing /\ hist' = <<[a |-> "Init"]>>
      [] e.a = "Insert" -> Insert(e.e)
      [] e.a = "Delete" -> Delete(e.e)
      [] e.a = "Query"  -> Query(e.lo, e.hi)
      [] e.a = "Look"   -> Look
TraceInit == tree = Nil /\ bag = Nothing /\ hist = <<>> /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Act(Trace[l]) /\ Matches(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceView == <<bag, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
