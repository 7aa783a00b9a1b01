------------------------------ MODULE Proxies -------------------------------
(***************************************************************************)
(* Node proxies over a source of nodes that may change                      *)
(* (plotline/src/graph/proxy.rs).                                           *)
(*                                                                          *)
(* kind: what the source is: a graph (cannot change while proxies exist), a *)
(* transaction context, a nested context, or a source of the user's own     *)
(* ("custom"), possibly one that finds nodes by ids that are not the nodes' *)
(* own ("alias").                                                           *)
(* A node is identified by its value; Edges(v) are the ids its edges name.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NI, NV, NP, MaxLen, Mode, Acts, AnySlot

Ids  == 1..NI
Vals == 1..NV
Slots == 1..NP
Kinds == {"graph", "ctx", "sub", "custom", "alias"}

Edges(v) == CASE v >= 19   -> [k \in 1..(v - 18) * 300 |-> ((7 * k) % (NI + 1)) + 1]
              [] v % 5 = 1 -> <<1>>
              [] v % 5 = 2 -> <<2, 1>>
              [] v % 5 = 3 -> <<1, (v % NI) + 1, 1>>
              [] v % 5 = 4 -> <<NI + 1, 1>>
              [] OTHER     -> <<>>

VARIABLES kind, src, prox, hist
core == <<kind, src, prox>>
vars == <<kind, src, prox, hist>>

(* val: -1 while unresolved *)
NoProxy == [id |-> 0, val |-> -1]
Live(p) == prox[p].id # 0
Holds(id) == IF id \in Ids THEN src[id] ELSE 0

Proj == [ g |-> src,
          p |-> [p \in Slots |-> IF Live(p)
                 THEN [id |-> prox[p].id, virt |-> (Holds(prox[p].id) = 0), val |-> prox[p].val]
                 ELSE [id |-> 0, virt |-> TRUE, val |-> -1]] ]

Rec(e) == hist' = CASE Mode = "sim"   -> Append(hist, e @@ [x |-> Proj'])
                    [] Mode = "trace" -> <<e @@ [x |-> Proj']>>
                    [] OTHER          -> Append(hist, e)

Start == [i \in Ids |-> i % 2]
Init == /\ kind \in Kinds
        /\ src = Start
        /\ prox = [p \in Slots |-> NoProxy]
        /\ hist = <<[a |-> "Init", ni |-> NI, np |-> NP, kind |-> kind, g |-> src,
                     edges |-> [v \in Vals |-> Edges(v)]]>>

Free(p) == ~Live(p) /\ (AnySlot \/ \A q \in Slots : q < p => Live(q))

New(p, id) ==
    /\ Free(p)
    /\ prox' = [prox EXCEPT ![p] = [id |-> id, val |-> -1]]
    /\ UNCHANGED <<kind, src>>
    /\ Rec([a |-> "New", p |-> p, id |-> id])

Resolved(p) == IF prox[p].val # -1 THEN prox[p].val ELSE Holds(prox[p].id)

Deref(p) ==
    /\ Live(p)
    /\ prox' = [prox EXCEPT ![p].val = Resolved(p)]
    /\ UNCHANGED <<kind, src>>
    /\ Rec([a |-> "Deref", p |-> p, r |-> Resolved(p)])

Clone(p, q) ==
    /\ Live(p) /\ Free(q)
    /\ prox' = [prox EXCEPT ![q] = prox[p]]
    /\ UNCHANGED <<kind, src>>
    /\ Rec([a |-> "Clone", p |-> p, q |-> q])

(* lists the successors of p and keeps the k-th one in slot q (k = 0: none) *)
Succ(p, k, q) ==
    /\ Live(p)
    /\ LET list == IF Resolved(p) = 0 THEN <<>> ELSE Edges(Resolved(p)) IN
       /\ k <= Len(list)
       /\ k > 0 => Free(q)
       /\ prox' = [t \in Slots |-> IF t = p THEN [prox[p] EXCEPT !.val = Resolved(p)]
                                   ELSE IF k > 0 /\ t = q THEN [id |-> list[k], val |-> -1]
                                   ELSE prox[t]]
       /\ UNCHANGED <<kind, src>>
       /\ Rec([a |-> "Succ", p |-> p, k |-> k, q |-> q, r |-> list])

Drop(p) ==
    /\ Live(p)
    /\ prox' = [prox EXCEPT ![p] = NoProxy]
    /\ UNCHANGED <<kind, src>>
    /\ Rec([a |-> "Drop", p |-> p])

Set(id, v) ==
    /\ kind # "graph"
    /\ src' = [src EXCEPT ![id] = v]
    /\ UNCHANGED <<kind, prox>>
    /\ Rec([a |-> "Set", id |-> id, v |-> v])

(* n threads resolve a proxy at once, while the node changes to v as soon as one of them got it.
   (Recorded executions only: whether another one sees the node before or after is not determined; but
   they all have to agree.) *)
Race(p, n, v, won) ==
    /\ Live(p) /\ kind \notin {"ctx", "sub"}
    /\ LET id == prox[p].id
           after == IF kind = "graph" \/ id \notin Ids THEN Holds(id) ELSE v IN
       /\ IF prox[p].val # -1 THEN won = prox[p].val ELSE won \in {Holds(id), after}
       /\ src' = IF id \in Ids THEN [src EXCEPT ![id] = after] ELSE src
       /\ prox' = [prox EXCEPT ![p].val = won]
       /\ UNCHANGED kind
       /\ Rec([a |-> "Race", p |-> p, n |-> n, v |-> v, rs |-> [k \in 1..n |-> won]])

Next ==
    \/ \E p \in Slots, id \in 1..NI+1 : New(p, id)
    \/ \E p \in Slots : Deref(p)
    \/ \E p, q \in Slots : Clone(p, q)
    \/ \E p, q \in Slots, k \in 0..3 : (k = 0 => q = p) /\ Succ(p, k, q)
    \/ "Drop" \in Acts /\ \E p \in Slots : Drop(p)
    \/ \E id \in Ids, v \in 0..NV : Set(id, v)

Spec == Init /\ [][Next]_vars
BNext == Len(hist) < MaxLen /\ Next
BSpec == Init /\ [][BNext]_vars
Emit == Mode # "test" \/ PrintT("@T" \o ToJson([h |-> hist', x |-> Proj']))
EmitSim == \/ Mode # "sim"
           \/ Len(hist) < MaxLen
           \/ PrintT("@S" \o ToJson(hist))

-----------------------------------------------------------------------------
TypeOK == /\ \A i \in Ids : src[i] \in 0..NV
          /\ \A p \in Slots : prox[p].id \in 0..NI+1 /\ prox[p].val \in -1..NV

(* C12: a resolved proxy never changes its answer *)
Keeps == [][\A p \in Slots : (Live(p) /\ prox[p].val # -1 /\ prox'[p].id # 0) => prox'[p] = prox[p]]_vars
(* C12: the first resolution yields what the source holds then *)
FirstAnswer == [][\A p \in Slots : (Live(p) /\ prox[p].val = -1 /\ prox'[p].val # -1) =>
                    prox'[p].val = Holds(prox[p].id) /\ prox'[p].id = prox[p].id]_vars
(* C12: nothing is resolved behind the user's back *)
Lazy == [][\A p, q \in Slots :
             (Live(p) /\ prox[p].val = -1 /\ prox'[p].id # 0 /\ prox'[p].val # -1) =>
                LET e == hist'[Len(hist')] IN e.a \in {"Deref", "Succ"} /\ e.p = p]_vars
=============================================================================
