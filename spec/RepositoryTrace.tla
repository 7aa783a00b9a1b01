--------------------------- MODULE RepositoryTrace ---------------------------
EXTENDS Repository, IOUtils
CONSTANT Mask
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<cfg, nam, at, ign, bulk, sess, graph, hist, l>>
Matches(e) ==
    LET m == hist'[1] IN
    /\ "r" \in Mask /\ e.a \in {"List", "Save", "Delete", "NoId", "Read"} => e.r = m.r
    /\ "out" \in Mask /\ (e.a = "List" \/ (e.a = "Prog" /\ e.cmd = "list")) => e.out = m.out /\ e.outn = m.outn
    /\ "exit" \in Mask /\ e.a = "Prog" => e.exit = m.exit /\ e.why = m.why
    /\ \A f \in {"l", "b", "f", "g", "n", "gn"} \cap Mask : e.x[f] = m.x[f]
Reset(e) == /\ cfg' = e.cfg
            /\ nam' = Derive(e.cfg)
            /\ at' = [k \in 1..Len(e.cfg.pool) |-> 0]
            /\ ign' = {} /\ sess' = FALSE
            /\ bulk' = [n |-> 0, held |-> 0]
            /\ graph' = [j \in 1..Len(e.cfg.ids) |-> 0]
            /\ hist' = <<[a |-> "Init", x |-> Proj']>>
Act(e) ==
    CASE e.a = "Init"   -> Reset(e)
      [] e.a = "Mkdir"  -> Mkdir(e.k)
      [] e.a = "Write"  -> Write(e.k, e.c)
      [] e.a = "Remove" -> Unlink(e.k)
      [] e.a = "Rename" -> Rename(e.k, e.m)
      [] e.a = "Ignore" -> Ignore(e.k, e.how)
      [] e.a = "Special" -> Special(e.k, e.c)
      [] e.a = "Fill"   -> Fill(e.n)
      [] e.a = "Start"  -> Start
      [] e.a = "List"   -> List
      [] e.a = "Save"   -> Save(e.j, e.c)
      [] e.a = "Delete" -> Delete(e.j)
      [] e.a = "NoId"   -> NoId(e.cmd)
      [] e.a = "Read"   -> Read(e.j)
      [] e.a = "Prog"   -> Prog(e.cmd, e.j, e.c)
TraceInit == /\ cfg = [pool |-> <<>>, ids |-> <<>>, ext |-> <<>>, ctx |-> ""]
             /\ nam = [file |-> <<>>, par |-> <<>>, vis |-> <<>>, comp |-> <<>>]
             /\ at = <<>> /\ ign = {} /\ bulk = [n |-> 0, held |-> 0] /\ sess = FALSE /\ graph = <<>> /\ hist = <<>> /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Act(Trace[l]) /\ Matches(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceView == l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
