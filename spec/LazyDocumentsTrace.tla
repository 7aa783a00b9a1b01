------------------------- MODULE LazyDocumentsTrace -------------------------
EXTENDS LazyDocuments, IOUtils
CONSTANT Mask
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<docs, stk, hist, l>>
Matches(e) == /\ e.a \in {"Begin", "Answer"} => e.r = hist'[1].r
              /\ e.a = "Begin" => e.ask = hist'[1].ask
              /\ e.a = "Race" => e.rs = hist'[1].rs
              /\ e.x = hist'[1].x
Reset(e) == /\ docs' = [h \in Slots |-> NoDoc] /\ stk' = [t \in Threads |-> <<>>]
            /\ hist' = <<[a |-> "Init", x |-> Proj']>>
Act(e) ==
    CASE e.a = "Init"   -> Reset(e)
      [] e.a = "Build"  -> Build(e.h, e.id)
      [] e.a = "Make"   -> Make(e.h, e.id, e.v)
      [] e.a = "Clone"  -> Clone(e.h, e.q)
      [] e.a = "Drop"   -> Drop(e.h)
      [] e.a = "Begin"  -> Begin(e.t, e.h)
      [] e.a = "Answer" -> Answer(e.t, e.v, e.p)
      [] e.a = "Race"   -> \E won \in {e.rs[k] : k \in 1..Len(e.rs)} : Race(e.h, e.n, won)
TraceInit == docs = [h \in Slots |-> NoDoc] /\ stk = [t \in Threads |-> <<>>] /\ hist = <<>> /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Act(Trace[l]) /\ Matches(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceView == <<core, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
