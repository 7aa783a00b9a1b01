---------------------------- MODULE Concurrency ----------------------------
(***************************************************************************)
(* How the schema achieves what Atomic.tla says: a lock of readers and      *)
(* writers around the graph. A transaction takes it exclusively at its      *)
(* first use, records, and at its end applies what it recorded one by one   *)
(* before it releases the lock; if it fails it releases it right away.      *)
(* Direct writers change the graph one node at a time under the exclusive   *)
(* lock; readers visit it one node at a time under the shared one.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Parties, NG, MaxOps, MaxUpdates
Groups == 1..NG

VARIABLES graph,     \* Groups -> value
          holder,    \* who holds the lock exclusively, 0 if nobody
          readers,   \* who holds it shared
          pc,        \* Parties -> where it is
          log,       \* Parties -> what it recorded: [i, e]
          seen,      \* Parties -> what a reader saw so far
          count,     \* number of updates so far (a node everyone increments)
          tries,     \* number of times a party wanted to write
          done       \* the graph after each update
vars == <<graph, holder, readers, pc, log, seen, count, tries, done>>

Effects == {"save", "del"}
Val(e, v) == IF e = "save" THEN v ELSE 0

Init == /\ graph = [i \in Groups |-> 0]
        /\ holder = 0 /\ readers = {}
        /\ pc = [p \in Parties |-> "out"]
        /\ log = [p \in Parties |-> <<>>]
        /\ seen = [p \in Parties |-> <<>>]
        /\ count = 0
        /\ tries = 0
        /\ done = <<[i \in Groups |-> 0]>>

(* a party wants to read, to write, or to execute a transaction *)
Want(p, k) == /\ pc[p] = "out"
              /\ IF k = "want read" THEN UNCHANGED tries ELSE tries < MaxUpdates /\ tries' = tries + 1
              /\ pc' = [pc EXCEPT ![p] = k]
              /\ UNCHANGED <<graph, holder, readers, log, seen, count, done>>

Exclusive(p) == holder = 0 /\ readers = {} /\ holder' = p /\ UNCHANGED readers

Begin(p) == /\ pc[p] = "want tx"
            /\ Exclusive(p)
            /\ pc' = [pc EXCEPT ![p] = "recording"]
            /\ UNCHANGED <<graph, log, seen, count, tries, done>>

Record(p) == /\ pc[p] = "recording"
             /\ Len(log[p]) < MaxOps
             /\ \E i \in Groups, e \in Effects : log' = [log EXCEPT ![p] = Append(@, [i |-> i, e |-> e])]
             /\ UNCHANGED <<graph, holder, readers, pc, seen, count, tries, done>>

Succeed(p) == /\ pc[p] = "recording"
              /\ pc' = [pc EXCEPT ![p] = "applying"]
              /\ UNCHANGED <<graph, holder, readers, log, seen, count, tries, done>>

Fail(p) == /\ pc[p] = "recording"
           /\ pc' = [pc EXCEPT ![p] = "out"]
           /\ log' = [log EXCEPT ![p] = <<>>]
           /\ holder' = 0
           /\ UNCHANGED <<graph, readers, seen, count, tries, done>>

ApplyOne(p) == /\ pc[p] = "applying"
               /\ log[p] # <<>>
               /\ LET op == Head(log[p]) IN graph' = [graph EXCEPT ![op.i] = Val(op.e, count + 1)]
               /\ log' = [log EXCEPT ![p] = Tail(@)]
               /\ UNCHANGED <<holder, readers, pc, seen, count, tries, done>>

(* the counting node is the last one a transaction saves *)
Finish(p) == /\ pc[p] = "applying"
             /\ log[p] = <<>>
             /\ count' = count + 1
             /\ done' = Append(done, graph)
             /\ holder' = 0
             /\ pc' = [pc EXCEPT ![p] = "out"]
             /\ UNCHANGED <<graph, readers, log, seen, tries>>

(* schema.write() *)
Lock(p) == /\ pc[p] = "want write"
           /\ Exclusive(p)
           /\ pc' = [pc EXCEPT ![p] = "writing"]
           /\ UNCHANGED <<graph, log, seen, count, tries, done>>

Write(p) == /\ pc[p] = "writing"
            /\ Len(log[p]) < MaxOps
            /\ \E i \in Groups, e \in Effects :
                 /\ graph' = [graph EXCEPT ![i] = Val(e, count + 1)]
                 /\ log' = [log EXCEPT ![p] = Append(@, [i |-> i, e |-> e])]
            /\ UNCHANGED <<holder, readers, pc, seen, count, tries, done>>

Unlock(p) == /\ pc[p] = "writing"
             /\ count' = count + 1
             /\ done' = Append(done, graph)
             /\ holder' = 0
             /\ log' = [log EXCEPT ![p] = <<>>]
             /\ pc' = [pc EXCEPT ![p] = "out"]
             /\ UNCHANGED <<graph, readers, seen, tries>>

(* schema.read(): nobody overtakes a party waiting for exclusive access *)
Waits(q) == pc[q] \in {"want tx", "want write"}
Share(p) == /\ pc[p] = "want read"
            /\ holder = 0
            /\ \A q \in Parties : ~Waits(q)
            /\ readers' = readers \cup {p}
            /\ pc' = [pc EXCEPT ![p] = "reading"]
            /\ UNCHANGED <<graph, holder, log, seen, count, tries, done>>

Visit(p) == /\ pc[p] = "reading"
            /\ Len(seen[p]) < NG
            /\ seen' = [seen EXCEPT ![p] = Append(@, graph[Len(@) + 1])]
            /\ UNCHANGED <<graph, holder, readers, pc, log, count, tries, done>>

Leave(p) == /\ pc[p] = "reading"
            /\ Len(seen[p]) = NG
            /\ readers' = readers \ {p}
            /\ seen' = [seen EXCEPT ![p] = <<>>]
            /\ pc' = [pc EXCEPT ![p] = "out"]
            /\ UNCHANGED <<graph, holder, log, count, tries, done>>

Step(p) == Begin(p) \/ Succeed(p) \/ Fail(p) \/ ApplyOne(p) \/ Finish(p) \/ Lock(p) \/ Unlock(p)
           \/ Share(p) \/ Visit(p) \/ Leave(p)
Next == \E p \in Parties : \/ \E k \in {"want tx", "want write", "want read"} : Want(p, k)
                           \/ Record(p) \/ Write(p) \/ Step(p)

Spec == Init /\ [][Next]_vars

(* A party that has access eventually gives it up, and the lock is not unfair to anyone for ever. Parties
   that write for ever could keep those out who only read, hence the bound on tries. *)
Fair == \A p \in Parties :
          /\ WF_vars(Fail(p)) /\ WF_vars(ApplyOne(p)) /\ WF_vars(Finish(p)) /\ WF_vars(Unlock(p))
          /\ WF_vars(Visit(p)) /\ WF_vars(Leave(p))
          /\ SF_vars(Begin(p)) /\ SF_vars(Lock(p)) /\ SF_vars(Share(p))
FairSpec == Spec /\ Fair

-----------------------------------------------------------------------------
TypeOK == /\ holder \in {0} \cup Parties
          /\ readers \subseteq Parties
          /\ count \in 0..MaxUpdates
          /\ Len(done) = count + 1

(* C05: whoever holds the graph exclusively holds it alone *)
Alone == /\ holder # 0 => readers = {}
         /\ \A p \in Parties : pc[p] \in {"recording", "applying", "writing"} <=> holder = p
         /\ \A p \in Parties : pc[p] = "reading" <=> p \in readers

(* C01, C05: what a reader has seen is a part of the outcome of exactly the updates so far *)
NeverTorn == \A p \in readers : \A i \in 1..Len(seen[p]) : seen[p][i] = done[count + 1][i]

(* C02, C05: while nobody holds the graph exclusively it is the outcome of the updates so far *)
AtRest == holder = 0 => graph = done[count + 1]

(* the steps of the algorithm are those of the atomic specification *)
Abs == INSTANCE Atomic WITH n <- count, g <- done[count + 1]
Refines == Abs!ASpec

(* C05: access is available again to whoever wants it *)
EveryoneGetsIn == \A p \in Parties : /\ pc[p] = "want read" ~> pc[p] # "want read"
                                     /\ Waits(p) ~> ~Waits(p)
=============================================================================
