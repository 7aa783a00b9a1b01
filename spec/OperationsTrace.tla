-------------------------- MODULE OperationsTrace --------------------------
(* Validates recorded executions of operations and triggers.                *)
EXTENDS Operations, IOUtils

CONSTANT Mask
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l
tvars == <<regs, graph, stk, cnt, kept, hist, l>>

Matches(e) ==
    LET r == hist'[1] IN
    /\ "r" \in Mask => (e.a = "Init" \/ e.r = r.r)
    /\ "t" \in Mask => e.x.t = r.x.t
    /\ "v" \in Mask => e.x.v = r.x.v
    /\ "tg" \in Mask => e.x.tg = r.x.tg
    /\ "k" \in Mask => e.x.k = r.x.k
    /\ "c" \in Mask => e.x.c = r.x.c

Reset(e) == /\ graph' = e.g /\ regs' = e.regs
            /\ stk' = <<>> /\ cnt' = 0 /\ kept' = NoKept
            /\ hist' = <<[a |-> "Init", x |-> Proj']>>

Act(e) ==
    CASE e.a = "Init"       -> Reset(e)
      [] e.a = "Tx"         -> BeginTx(e.c)
      [] e.a = "Save"       -> BeginSave(e.id, e.v, e.c)
      [] e.a = "Del"        -> BeginDel(e.id, e.c)
      [] e.a = "Sel"        -> Sel(e.s, e.c)
      [] e.a = "CSave"      -> CSave(e.id, e.v)
      [] e.a = "CDel"       -> CDel(e.id)
      [] e.a = "WithTarget" -> WithTarget(e.id, e.v)
      [] e.a = "SetTgt"     -> SetTgt(e.id, e.v)
      [] e.a = "Keep"       -> Keep
      [] e.a = "SetKept"    -> SetKept(e.id, e.v)
      [] e.a = "Burst"      -> Burst(e.caught, e.e)
      [] e.a = "Ret"        -> Ret(e.how, e.e)
      [] e.a = "Bump"       -> Bump

TraceInit == /\ graph = [i \in Ids |-> 0] /\ regs = <<>>
             /\ stk = <<>> /\ cnt = 0 /\ kept = NoKept /\ hist = <<>> /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ Act(Trace[l])
             /\ Matches(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceView == <<core, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
