---------------------------- MODULE Transactions ----------------------------
(***************************************************************************)
(* The transaction layer of a schema (plotline/src/schema/transaction.rs,   *)
(* guard.rs).  One action per public call.                                  *)
(*                                                                          *)
(*   Open(t)      let t = schema.transaction()                              *)
(*   Sub(t, p)    let t = ctx_of_p.transaction()                            *)
(*   Ctx(t)       Context::from(&t); the first one of a top-level           *)
(*                transaction acquires the graph                            *)
(*   Save / Del   ctx.save(node) / ctx.delete(id) through context c of t    *)
(*   Bulk         n saves and deletes in a row through context c of t       *)
(*   With(t)      t.with(|ctx| ...): the closure starts                     *)
(*   End(t, how)  the closure of t ends with Ok, Err(Msg), Err(Noop) or a   *)
(*                panic                                                     *)
(*   PanicAll     a panic that unwinds every running closure                *)
(*   Drop(t)      the handle goes out of scope without being executed       *)
(*   Put / Rem / PutPanic   direct mutation through schema.write()          *)
(*   Wait(k)      another thread asks for access while the graph is held    *)
(*                                                                          *)
(* A slot t is reused after its transaction ended.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS NI,        \* number of node ids
          NV,        \* number of distinguishable node values
          NT,        \* number of transaction slots
          MaxCtx,    \* contexts obtained from one handle
          MaxLog,    \* bound on recorded operations per transaction
          MaxLen,    \* bound on behaviour length
          Mode,      \* "test": print one test per transition; "sim": print behaviours; "trace"; "check"
          Acts,      \* names of the optional actions that are enabled
          AnySlot,   \* FALSE: a new transaction takes the least free slot (symmetry)
          FreshVals, \* TRUE: every save stores a value that occurs nowhere yet
          InitAll    \* TRUE: start from every graph, FALSE: odd ids present

Ids  == 1..NI
Vals == 1..NV
Txs  == 1..NT

VARIABLES graph,    \* Ids -> value, 0 if absent
          tx,       \* Txs -> [st, par, log, nctx, late]; late: unusable contexts are in scope
          lock,     \* the top-level transaction holding the graph, 0 if none
          wstack,   \* transactions whose closure is running, innermost last
          waiting,  \* kind of access another thread is waiting for, "" if none
          hist

core == <<graph, tx, lock, wstack, waiting>>
vars == <<graph, tx, lock, wstack, waiting, hist>>

NoTx == [st |-> "none", par |-> 0, log |-> <<>>, nctx |-> 0, late |-> FALSE]

-----------------------------------------------------------------------------
(* Reading                                                                  *)

Hits(log, id) == {k \in 1..Len(log) : log[k].id = id}
LastHit(log, id) == CHOOSE k \in Hits(log, id) : \A j \in Hits(log, id) : j <= k

RECURSIVE Look(_, _)
Look(t, id) ==
    IF t = 0 THEN graph[id]
    ELSE LET log == tx[t].log IN
         IF Hits(log, id) # {} THEN log[LastHit(log, id)].v
         ELSE Look(tx[t].par, id)

View(t) == [id \in Ids |-> Look(t, id)]

ApplyLog(log, g) ==
    [id \in Ids |-> IF Hits(log, id) # {} THEN log[LastHit(log, id)].v ELSE g[id]]

Live(t)     == tx[t].st # "none"
Readable(t) == tx[t].st \in {"open", "run"}
Children(t) == {u \in Txs : Live(u) /\ tx[u].par = t}

RECURSIVE Root(_)
Root(t) == IF tx[t].par = 0 THEN t ELSE Root(tx[t].par)

RECURSIVE Ancestors(_)
Ancestors(t) == IF t = 0 THEN {} ELSE {t} \cup Ancestors(tx[t].par)

(* What the API lets us see: the graph while nobody holds it, and the view  *)
(* of every transaction that has a context.                                 *)
Proj == [ f |-> (lock = 0),
          g |-> IF lock = 0 THEN graph ELSE <<>>,
          v |-> [t \in Txs |-> IF Readable(t) THEN View(t) ELSE <<>>] ]

Rec(e) == hist' = CASE Mode = "sim"   -> Append(hist, e @@ [x |-> Proj'])
                    [] Mode = "trace" -> <<e @@ [x |-> Proj']>>
                    [] OTHER          -> Append(hist, e)

-----------------------------------------------------------------------------
Odd == [i \in Ids |-> i % 2]
Init == /\ graph \in IF InitAll THEN [Ids -> {0} \cup Vals] ELSE {Odd}
        /\ tx     = [t \in Txs |-> NoTx]
        /\ lock   = 0
        /\ wstack = <<>>
        /\ waiting = ""
        /\ hist   = <<[a |-> "Init", g |-> graph, nt |-> NT]>>

CanTake(t) == /\ tx[t].st = "none"
              /\ AnySlot \/ \A u \in Txs : u < t => Live(u)

Open(t) ==
    /\ CanTake(t)
    /\ tx' = [tx EXCEPT ![t] = [NoTx EXCEPT !.st = "idle"]]
    /\ UNCHANGED <<graph, lock, wstack, waiting>>
    /\ Rec([a |-> "Open", t |-> t])

Sub(t, p) ==
    /\ CanTake(t)
    /\ Readable(p)
    /\ tx' = [tx EXCEPT ![t] = [NoTx EXCEPT !.st = "idle", !.par = p]]
    /\ UNCHANGED <<graph, lock, wstack, waiting>>
    /\ Rec([a |-> "Sub", t |-> t, p |-> p])

(* The first use of a top-level transaction acquires the graph; while       *)
(* someone else holds it the call would block, so it is not enabled.        *)
Acquires(t) == tx[t].par = 0 /\ tx[t].st = "idle"
Acquire(t)  == IF Acquires(t) THEN lock = 0 /\ lock' = t ELSE UNCHANGED lock

Ctx(t) ==
    /\ tx[t].st \in {"idle", "open"}
    /\ tx[t].nctx < MaxCtx
    /\ Acquire(t)
    /\ tx' = [tx EXCEPT ![t].st = "open", ![t].nctx = @ + 1]
    /\ UNCHANGED <<graph, wstack, waiting>>
    /\ Rec([a |-> "Ctx", t |-> t])

(* Contexts of a handle are numbered 1..nctx; the one passed to a closure   *)
(* is number 1.                                                             *)
Record(t, c, op) ==
    /\ Readable(t)
    /\ c \in 1..tx[t].nctx
    /\ Len(tx[t].log) < MaxLog
    /\ tx' = [tx EXCEPT ![t].log = Append(@, op)]
    /\ UNCHANGED <<graph, lock, wstack, waiting>>

Save(t, c, id, v) ==
    /\ Record(t, c, [id |-> id, v |-> v])
    /\ Rec([a |-> "Save", t |-> t, c |-> c, id |-> id, v |-> v])

Del(t, c, id) ==
    /\ Record(t, c, [id |-> id, v |-> 0])
    /\ Rec([a |-> "Del", t |-> t, c |-> c, id |-> id])

(* Many operations in a row, the k-th of them on id k % NI + 1: of those on *)
(* one id only the last matters, so it is enough to record the last NI.     *)
BulkOp(k, m) == [id |-> (k % m) + 1, v |-> (k \div m) % 4]
Bulk(t, c, n, m) ==
    /\ Readable(t)
    /\ c \in 1..tx[t].nctx
    /\ n > m
    /\ Len(tx[t].log) + m <= MaxLog
    /\ tx' = [tx EXCEPT ![t].log = @ \o [j \in 1..m |-> BulkOp((n - m) + j, m)]]
    /\ UNCHANGED <<graph, lock, wstack, waiting>>
    /\ Rec([a |-> "Bulk", t |-> t, c |-> c, n |-> n, m |-> m])

(* Contexts obtained from the handle cannot be used any more once its       *)
(* closure runs, but they may still be in scope (linger).                   *)
With(t, linger) ==
    /\ tx[t].st \in {"idle", "open"}
    /\ Children(t) = {}
    /\ linger => tx[t].nctx > 0
    /\ Acquire(t)
    /\ tx' = [tx EXCEPT ![t].st = "run", ![t].nctx = 1, ![t].late = linger]
    /\ wstack' = Append(wstack, t)
    /\ UNCHANGED <<graph, waiting>>
    /\ Rec([a |-> "With", t |-> t, linger |-> linger])

(* Releasing the graph lets a waiting thread in, which sees the complete    *)
(* outcome.                                                                 *)
Release(gone) ==
    /\ lock' = IF lock \in gone THEN 0 ELSE lock
    /\ waiting' = IF lock \in gone THEN "" ELSE waiting

Woken(gone) == IF waiting # "" /\ lock \in gone THEN graph' ELSE <<>>

End(t, how) ==
    /\ wstack # <<>>
    /\ t = wstack[Len(wstack)]
    /\ Children(t) = {}
    /\ wstack' = SubSeq(wstack, 1, Len(wstack) - 1)
    /\ LET p == tx[t].par IN
       IF how = "ok"
       THEN IF p = 0
            THEN /\ graph' = ApplyLog(tx[t].log, graph)
                 /\ tx' = [tx EXCEPT ![t] = NoTx]
            ELSE /\ tx' = [tx EXCEPT ![t] = NoTx, ![p].log = @ \o tx[t].log]
                 /\ UNCHANGED graph
       ELSE /\ tx' = [tx EXCEPT ![t] = NoTx]
            /\ UNCHANGED graph
    /\ Release({t})
    /\ Rec([a |-> "End", t |-> t, how |-> how, r |-> how, w |-> Woken({t})])

Running == {wstack[k] : k \in 1..Len(wstack)}
(* transactions that cannot outlive the running closures *)
Doomed  == {t \in Txs : Live(t) /\ Ancestors(t) \cap Running # {}}

PanicAll ==
    /\ Len(wstack) > 1
    /\ wstack' = <<>>
    /\ tx' = [t \in Txs |-> IF t \in Doomed THEN NoTx ELSE tx[t]]
    /\ UNCHANGED graph
    /\ Release(Doomed)
    /\ Rec([a |-> "PanicAll", r |-> "panic", w |-> Woken(Doomed)])

Drop(t) ==
    /\ tx[t].st \in {"idle", "open"}
    /\ Children(t) = {}
    /\ tx' = [tx EXCEPT ![t] = NoTx]
    /\ UNCHANGED <<graph, wstack>>
    /\ Release({t})
    /\ Rec([a |-> "Drop", t |-> t, w |-> Woken({t})])

Put(id, v) ==
    /\ lock = 0
    /\ graph' = [graph EXCEPT ![id] = v]
    /\ UNCHANGED <<tx, lock, wstack, waiting>>
    /\ Rec([a |-> "Put", id |-> id, v |-> v, r |-> graph[id]])

Rem(id) ==
    /\ lock = 0
    /\ graph' = [graph EXCEPT ![id] = 0]
    /\ UNCHANGED <<tx, lock, wstack, waiting>>
    /\ Rec([a |-> "Rem", id |-> id, r |-> graph[id]])

(* A panic while the write guard is held: what was inserted stays, and the  *)
(* schema stays usable.                                                     *)
PutPanic(id, v) ==
    /\ lock = 0
    /\ graph' = [graph EXCEPT ![id] = v]
    /\ UNCHANGED <<tx, lock, wstack, waiting>>
    /\ Rec([a |-> "PutPanic", id |-> id, v |-> v])

(* Another thread asks for access ("read": schema.read(), "write":          *)
(* schema.write(), "tx": a transaction); it does not get it now.            *)
Wait(k) ==
    /\ lock # 0
    /\ waiting = ""
    /\ waiting' = k
    /\ UNCHANGED <<graph, tx, lock, wstack>>
    /\ Rec([a |-> "Wait", k |-> k, r |-> "blocked"])

(* Another thread asks for access while nobody holds the graph: it gets it. *)
Peek(k) ==
    /\ lock = 0
    /\ UNCHANGED core
    /\ Rec([a |-> "Peek", k |-> k, w |-> graph])

Kinds == {"read", "write", "tx"}
On(n) == n \in Acts

Used == {graph[i] : i \in Ids}
        \cup UNION {{tx[t].log[k].v : k \in 1..Len(tx[t].log)} : t \in Txs}
(* the values a new save may store *)
Offer == IF FreshVals
         THEN {v \in Vals : v \notin Used /\ \A w \in Vals \ Used : v <= w}
         ELSE Vals

Next ==
    \/ \E t \in Txs : Open(t)
    \/ \E t, p \in Txs : Sub(t, p)
    \/ \E t \in Txs : Ctx(t)
    \/ \E t \in Txs, c \in 1..MaxCtx, id \in Ids, v \in Offer : Save(t, c, id, v)
    \/ \E t \in Txs, c \in 1..MaxCtx, id \in Ids : Del(t, c, id)
    \/ On("Bulk") /\ \E t \in Txs, c \in 1..MaxCtx, n \in {41, 1100}, m \in {1, NI} : Bulk(t, c, n, m)
    \/ \E t \in Txs : With(t, FALSE)
    \/ On("Linger") /\ \E t \in Txs : With(t, TRUE)
    \/ \E t \in Txs : End(t, "ok")
    \/ On("Err") /\ \E t \in Txs, how \in {"err", "noop"} : End(t, how)
    \/ On("Panic") /\ \E t \in Txs : End(t, "panic")
    \/ On("Panic") /\ PanicAll
    \/ On("Drop") /\ \E t \in Txs : Drop(t)
    \/ On("Direct") /\ \E id \in Ids, v \in Offer : Put(id, v)
    \/ On("Direct") /\ \E id \in Ids : Rem(id)
    \/ On("PutPanic") /\ \E id \in Ids, v \in Offer : PutPanic(id, v)
    \/ On("Wait") /\ \E k \in Kinds : Wait(k)
    \/ On("Peek") /\ \E k \in Kinds : Peek(k)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Bounding and generation                                                  *)

BNext == Len(hist) < MaxLen /\ Next
BSpec == Init /\ [][BNext]_vars

(* one line per transition: the shortest history to its source, the action  *)
(* and the state that must be observed after it                             *)
Emit == Mode # "test" \/ PrintT("@T" \o ToJson([h |-> hist', x |-> Proj']))

(* one line per finished random behaviour *)
EmitSim == \/ Mode # "sim"
           \/ Len(hist) < MaxLen
           \/ PrintT("@S" \o ToJson(hist))

-----------------------------------------------------------------------------
(* Properties                                                               *)

TypeOK ==
    /\ \A i \in Ids : graph[i] \in 0..NV
    /\ \A t \in Txs :
         /\ tx[t].st \in {"none", "idle", "open", "run"}
         /\ tx[t].par \in {0} \cup Txs
         /\ tx[t].nctx \in 0..MaxCtx
         /\ \A k \in 1..Len(tx[t].log) : tx[t].log[k].id \in Ids /\ tx[t].log[k].v \in 0..NV
    /\ lock \in {0} \cup Txs
    /\ \A k \in 1..Len(wstack) : tx[wstack[k]].st = "run"

(* C05: the holder is the only top-level transaction in use, and only a     *)
(* transaction in use holds the graph.                                      *)
Exclusive ==
    \A t \in Txs : (tx[t].par = 0 /\ Readable(t)) <=> (lock = t)
(* C05: nested transactions in use live inside the holder                   *)
Inside == \A t \in Txs : Live(t) /\ tx[t].par # 0 => Root(t) = lock
(* C05: nobody waits for a graph that is not held                           *)
NoIdleWait == waiting # "" => lock # 0

(* C01: a success makes the graph what the transaction saw; the graph       *)
(* changes in no other way than by that or by direct writes, and while      *)
(* somebody holds it only by that.                                          *)
CommitIsView ==
    [][graph' # graph =>
         \/ lock = 0 /\ lock' = 0 /\ tx' = tx
         \/ /\ lock # 0 /\ wstack = <<lock>> /\ lock' = 0
            /\ graph' = View(lock)]_vars

(* C01: for every id the latest record decides, other ids are untouched.    *)
LastWriteWins ==
    [][(lock # 0 /\ graph' # graph) =>
         LET log == tx[lock].log IN
         \A id \in Ids : \/ Hits(log, id) = {} /\ graph'[id] = graph[id]
                         \/ Hits(log, id) # {} /\ graph'[id] = log[LastHit(log, id)].v]_vars

Finished(t) == Live(t) /\ tx'[t].st = "none"

(* C02, C04: when a transaction ends, its parent's log is what it was, or   *)
(* that followed by the child's log; any other surviving log is what it     *)
(* was.                                                                     *)
EndEffect ==
    [][\A t \in Txs : Finished(t) =>
         \A u \in Txs : (Live(u) /\ tx'[u].st # "none") =>
            \/ tx'[u].log = tx[u].log
            \/ u = tx[t].par /\ tx'[u].log = tx[u].log \o tx[t].log /\ wstack # <<>> /\ wstack[Len(wstack)] = t]_vars

(* C03, C04: the view of a transaction changes only through its own log or  *)
(* that of an enclosing transaction (or a direct write while the graph is   *)
(* free).                                                                   *)
Isolation ==
    [][\A u \in Txs : (Readable(u) /\ tx'[u].st \in {"open", "run"} /\ View(u)' # View(u)) =>
         \E w \in Ancestors(u) : tx'[w].log # tx[w].log]_vars

(* C04: a nested commit makes the parent see what the child saw             *)
ChildViewBecomesParents ==
    [][\A t, p \in Txs :
         (/\ Finished(t) /\ tx[t].par = p
          /\ tx'[p].st # "none" /\ tx'[p].log # tx[p].log) => View(p)' = View(t)]_vars

(* C03: a recorded operation is immediately visible to its transaction      *)
ReadYourWrites ==
    [][\A t \in Txs : (Live(t) /\ tx'[t].st # "none" /\ Len(tx'[t].log) > Len(tx[t].log))
            => LET op == tx'[t].log[Len(tx'[t].log)] IN View(t)'[op.id] = op.v]_vars
=============================================================================
