--------------------------- MODULE ResourcesTrace ---------------------------
EXTENDS Resources, IOUtils

CONSTANT Mask
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l
tvars == <<reg, cell, hnd, scopes, hist, l>>

Matches(e) ==
    LET r == hist'[1] IN
    /\ e.a \in {"Enter", "Contend", "Leave", "Panic"} => e.r = r.r
    /\ e.x = r.x

Reset == /\ reg' = [t \in RTypes |-> 0]
         /\ cell' = [c \in Cells |-> NoCell]
         /\ hnd' = [h \in Handles |-> NoHnd]
         /\ scopes' = <<>>
         /\ hist' = <<[a |-> "Init", x |-> Proj']>>

Act(e) ==
    CASE e.a = "Init"  -> Reset
      [] e.a = "Reg"   -> Reg(e.ty, e.v)
      [] e.a = "Get"   -> Get(e.h, e.ty)
      [] e.a = "SetT"  -> SetT(e.h, e.v)
      [] e.a = "Clone" -> Clone(e.h, e.g)
      [] e.a = "Drop"  -> Drop(e.h)
      [] e.a = "Enter" -> Enter(e.w, e.hs)
      [] e.a = "Contend" -> Contend(e.w, e.hs, e.k, e.v)
      [] e.a = "Put"   -> Put(e.i, e.v)
      [] e.a = "Leave" -> Leave
      [] e.a = "Panic" -> Panic(e.n)

TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ Act(Trace[l])
             /\ Matches(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceView == <<core, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
