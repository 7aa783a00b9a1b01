------------------------- MODULE IntervalIndexTrace -------------------------
EXTENDS IntervalIndex, IOUtils
CONSTANT Mask
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<regs, ivs, graph, views, idx, undone, hist, l>>
Matches(e) == /\ ("r" \in Mask /\ e.a \in {"Save", "Del"}) => e.r = hist'[1].r
              /\ \A f \in Mask \cap {"i", "v"} : e.x[f] = hist'[1].x[f]
Start(e) == /\ regs' = e.regs /\ ivs' = e.ivs /\ graph' = e.g /\ views' = <<>> /\ idx' = e.g
            /\ undone' = FALSE
Act(e) ==
    CASE e.a = "Init"  -> Start(e) /\ hist' = <<e>>
      [] e.a = "Save"  -> Save(e.id, e.v, e.arm)
      [] e.a = "Del"   -> Del(e.id, e.arm)
      [] e.a = "Begin" -> Begin
      [] e.a = "End"   -> End(e.ok)
TraceInit == /\ regs = <<>> /\ ivs = <<>> /\ graph = <<>> /\ views = <<>> /\ idx = <<>>
             /\ undone = FALSE /\ hist = <<>> /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Act(Trace[l]) /\ Matches(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceView == <<core, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
