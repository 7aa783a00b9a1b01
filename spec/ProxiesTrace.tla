---------------------------- MODULE ProxiesTrace ----------------------------
EXTENDS Proxies, IOUtils
CONSTANT Mask
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<kind, src, prox, hist, l>>
Matches(e) == /\ e.a \in {"Deref", "Succ"} => e.r = hist'[1].r
              /\ e.a = "Race" => e.rs = hist'[1].rs
              /\ e.x = hist'[1].x
Reset(e) == /\ kind' = e.kind /\ src' = e.g /\ prox' = [p \in Slots |-> NoProxy]
            /\ hist' = <<[a |-> "Init", x |-> Proj']>>
Act(e) ==
    CASE e.a = "Init"  -> Reset(e)
      [] e.a = "New"   -> New(e.p, e.id)
      [] e.a = "Deref" -> Deref(e.p)
      [] e.a = "Clone" -> Clone(e.p, e.q)
      [] e.a = "Succ"  -> Succ(e.p, e.k, e.q)
      [] e.a = "Drop"  -> Drop(e.p)
      [] e.a = "Set"   -> Set(e.id, e.v)
      [] e.a = "Race"  -> \E won \in {e.rs[k] : k \in 1..Len(e.rs)} : Race(e.p, e.n, e.v, won)
TraceInit == kind = "" /\ src = [i \in Ids |-> 0] /\ prox = [p \in Slots |-> NoProxy] /\ hist = <<>> /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Act(Trace[l]) /\ Matches(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceView == <<core, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
