------------------------- MODULE TransactionsTrace -------------------------
(* Validates executions recorded from the real code: every line must be a   *)
(* step of Transactions with exactly the recorded result and visible state. *)
EXTENDS Transactions, IOUtils

CONSTANT Mask      \* which observations are compared: subset of {"f","g","v","r","w"}

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l
tvars == <<graph, tx, lock, wstack, waiting, hist, l>>

Has(e, n) == n \in DOMAIN e
Same(n, e, r) == n \notin Mask \/ ((Has(e, n) <=> Has(r, n)) /\ (Has(e, n) => e[n] = r[n]))

Matches(e) ==
    LET r == hist'[1] IN
    /\ Same("r", e, r) /\ Same("w", e, r)
    /\ "f" \in Mask => e.x.f = r.x.f
    /\ "g" \in Mask => e.x.g = r.x.g
    /\ "v" \in Mask => e.x.v = r.x.v

Reset(e) == /\ graph' = e.g
            /\ tx' = [t \in Txs |-> NoTx]
            /\ lock' = 0 /\ wstack' = <<>> /\ waiting' = ""
            /\ hist' = <<[a |-> "Init", x |-> Proj']>>

Act(e) ==
    CASE e.a = "Init"     -> Reset(e)
      [] e.a = "Open"     -> Open(e.t)
      [] e.a = "Sub"      -> Sub(e.t, e.p)
      [] e.a = "Ctx"      -> Ctx(e.t)
      [] e.a = "Save"     -> Save(e.t, e.c, e.id, e.v)
      [] e.a = "Del"      -> Del(e.t, e.c, e.id)
      [] e.a = "Bulk"     -> Bulk(e.t, e.c, e.n, e.m)
      [] e.a = "With"     -> With(e.t, e.linger)
      [] e.a = "End"      -> End(e.t, e.how)
      [] e.a = "PanicAll" -> PanicAll
      [] e.a = "Drop"     -> Drop(e.t)
      [] e.a = "Put"      -> Put(e.id, e.v)
      [] e.a = "Rem"      -> Rem(e.id)
      [] e.a = "PutPanic" -> PutPanic(e.id, e.v)
      [] e.a = "Wait"     -> Wait(e.k)
      [] e.a = "Peek"     -> Peek(e.k)

TraceInit == /\ graph = [i \in Ids |-> 0]
             /\ tx = [t \in Txs |-> NoTx]
             /\ lock = 0 /\ wstack = <<>> /\ waiting = ""
             /\ hist = <<>>
             /\ l = 1

TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ Act(Trace[l])
             /\ Matches(Trace[l])

TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceView == <<core, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
