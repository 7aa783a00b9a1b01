------------------------------- MODULE Graphs -------------------------------
(***************************************************************************)
(* A graph as a map from id to node (plotline/src/graph/mod.rs), alone or   *)
(* behind the guards of a schema (plotline/src/schema/guard.rs).            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS NI, NV, MaxIter, MaxLen, Mode, Acts

Ids  == 1..NI
Vals == 1..NV

VARIABLES graph, host, hist   \* host: "graph" alone, "schema" within a schema
core == <<graph, host>>
vars == <<graph, host, hist>>

Proj == [g |-> graph]
Rec(e) == hist' = CASE Mode = "sim"   -> Append(hist, e @@ [x |-> Proj'])
                    [] Mode = "trace" -> <<e @@ [x |-> Proj']>>
                    [] OTHER          -> Append(hist, e)

Empty == [i \in Ids |-> 0]
Init == /\ graph = Empty
        /\ host \in {"graph", "schema"}
        /\ hist = <<[a |-> "Init", ni |-> NI, host |-> host]>>

Seqs == INSTANCE SequencesExt

(* nodes: sequence of <<id, value>>, later ones win *)
Build(g, nodes) == Seqs!FoldLeft(LAMBDA h, n : [h EXCEPT ![n[1]] = n[2]], g, nodes)

FromIter(nodes) ==
    /\ graph' = Build(Empty, nodes)
    /\ UNCHANGED host
    /\ Rec([a |-> "FromIter", nodes |-> nodes])

Insert(id, v) ==
    /\ graph' = [graph EXCEPT ![id] = v]
    /\ UNCHANGED host
    /\ Rec([a |-> "Insert", id |-> id, v |-> v, r |-> graph[id]])

WithNode(id, v) ==
    /\ graph' = [graph EXCEPT ![id] = v]
    /\ UNCHANGED host
    /\ Rec([a |-> "WithNode", id |-> id, v |-> v])

Remove(id) ==
    /\ graph' = [graph EXCEPT ![id] = 0]
    /\ UNCHANGED host
    /\ Rec([a |-> "Remove", id |-> id, r |-> graph[id]])

Next ==
    \/ \E n \in 0..MaxIter : \E nodes \in [1..n -> Ids \X Vals] : FromIter(nodes)
    \/ \E id \in Ids, v \in Vals : Insert(id, v) \/ WithNode(id, v)
    \/ \E id \in Ids : Remove(id)

Spec == Init /\ [][Next]_vars
BNext == Len(hist) < MaxLen /\ Next
BSpec == Init /\ [][BNext]_vars
Emit == Mode # "test" \/ PrintT("@T" \o ToJson([h |-> hist', x |-> Proj']))
EmitSim == \/ Mode # "sim"
           \/ Len(hist) < MaxLen
           \/ PrintT("@S" \o ToJson(hist))

TypeOK == \A i \in Ids : graph[i] \in 0..NV

Happened(e) == hist' # hist /\ hist'[Len(hist')].a = e
E == hist'[Len(hist')]

(* C11: an insertion or removal concerns its id only and hands out what was *)
(* there; an id holds the last node of an iterator.                         *)
OneId ==
    [][(Happened("Insert") \/ Happened("WithNode") \/ Happened("Remove")) =>
          \A i \in Ids : i # E.id => graph'[i] = graph[i]]_vars
HandsOut == [][(Happened("Insert") \/ Happened("Remove")) => E.r = graph[E.id]]_vars
LastOfIterator ==
    [][Happened("FromIter") =>
         \A i \in Ids :
            LET at == {k \in 1..Len(E.nodes) : E.nodes[k][1] = i} IN
            IF at = {} THEN graph'[i] = 0
            ELSE graph'[i] = E.nodes[CHOOSE k \in at : \A j \in at : j <= k][2]]_vars
=============================================================================
