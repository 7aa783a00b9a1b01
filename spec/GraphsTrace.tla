---------------------------- MODULE GraphsTrace ----------------------------
EXTENDS Graphs, IOUtils
CONSTANT Mask
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<graph, host, hist, l>>
Matches(e) == /\ e.a \in {"Insert", "Remove"} => e.r = hist'[1].r
              /\ e.x = hist'[1].x
Reset(e) == graph' = Empty /\ host' = e.host /\ hist' = <<[a |-> "Init", x |-> Proj']>>
Act(e) ==
    CASE e.a = "Init"     -> Reset(e)
      [] e.a = "FromIter" -> FromIter(e.nodes)
      [] e.a = "Insert"   -> Insert(e.id, e.v)
      [] e.a = "WithNode" -> WithNode(e.id, e.v)
      [] e.a = "Remove"   -> Remove(e.id)
TraceInit == graph = Empty /\ host = "" /\ hist = <<>> /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Act(Trace[l]) /\ Matches(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceView == <<core, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
