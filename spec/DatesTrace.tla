----------------------------- MODULE DatesTrace -----------------------------
EXTENDS Dates, IOUtils
CONSTANT Mask
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<endian, n, dates, hist, l>>
Matches(e) == \A f \in Mask : e.x[f] = hist'[1].x[f]
Act(e) ==
    CASE e.a = "Init" -> endian' = e.endian /\ n' = e.n /\ dates' = <<>> /\ hist' = <<[a |-> "Init", x |-> Proj(e.endian, <<>>)]>>
      [] e.a = "Add"  -> Add(e.d)
TraceInit == endian = "" /\ n = 0 /\ dates = <<>> /\ hist = <<>> /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Act(Trace[l]) /\ Matches(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceView == <<core, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
