---------------------------- MODULE IntervalIndex ----------------------------
(***************************************************************************)
(* The interval plugin (plugins/interval/src/plugin.rs): an index of the    *)
(* intervals of the nodes, kept by the triggers of save and delete           *)
(* operations, among other triggers and within nested transactions.          *)
(*                                                                          *)
(* Two indexes are specified. The required one is a function of the nodes   *)
(* the innermost context sees. The coded one, idx, is what the triggers of   *)
(* the plugin do: they index the target of the operation, whatever triggers *)
(* before them made of it, and what they do is not undone when an operation *)
(* or a transaction fails after they ran: two known findings. They are      *)
(* equal as long as neither happened (SameUnlessUndone).                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS NI, NV, NB, RegSet, MaxDepth, MaxLen, Mode, Arms

Ids == 1..NI
Vals == 1..NV

VARIABLES regs,    \* the triggers, in registration order; "P" is the plugin
          ivs,     \* the intervals of each node value
          graph, views,   \* the committed nodes, and what each open transaction sees
          idx,     \* id -> value whose intervals the plugin indexed, 0 if none
          undone,  \* something failed after the plugin's triggers ran, or they were given an altered target
          hist
core == <<regs, graph, views, idx, undone>>
vars == <<regs, ivs, graph, views, idx, undone, hist>>

(* Triggers: alter and rename change the node about to be saved; f.. fail    *)
(* when armed; follow saves the next node with the same value unless there   *)
(* is one, cascade deletes it if there is one; hide saves it in a nested     *)
(* transaction that it makes fail. Too late to change what is saved or       *)
(* deleted: lateval and lateid change the target after the save, delid and   *)
(* delval before the delete.                                                 *)
Families == <<
    { <<"P">>, <<"alter", "P">>, <<"P", "alter">>, <<"rename", "P">>, <<"P", "rename", "alter">> },
    { <<"fBS", "fBD", "P">>, <<"P", "fBS", "fBD">>, <<"fAS", "fAD", "P">>, <<"P", "fAS", "fAD">> },
    { <<"P", "follow">>, <<"follow", "P">>, <<"cascade", "P">>, <<"P", "cascade">>,
      <<"P", "follow", "cascade", "alter">> },
    { <<"hide", "P">>, <<"P", "hide">>, <<"P", "follow", "fAS", "cascade", "fAD">>,
      <<"follow", "cascade", "P", "fAS", "fAD">> },
    { <<"lateval", "P">>, <<"lateid", "P">>, <<"delid", "P">>, <<"delval", "P", "lateval">>,
      <<"alter", "P", "lateid">>, <<"delval", "lateid", "delid", "P">> }
>>

Table == <<
    <<>>,
    << <<1, 2>> >>,
    << <<2, 3>>, <<1, 1>> >>,
    << <<2, 2>>, <<2, 2>> >>,
    << <<1, 3>>, <<3, 3>>, <<1, 3>> >>,
    << <<3, 3>>, <<1, 3>>, <<3, 3>> >>,
    << <<2, 2>>, <<1, 2>> >> >>

----------------------------------------------------------------------------
(* Indexes: sequences of <<id, lo, hi>> in order.                            *)

Less3(x, y) == \/ x[1] < y[1]
               \/ x[1] = y[1] /\ x[2] < y[2]
               \/ x[1] = y[1] /\ x[2] = y[2] /\ x[3] < y[3]
IndexOf(nodes) ==
    SortSeq(FoldLeft(LAMBDA s, i : IF nodes[i] = 0 THEN s
                ELSE s \o [k \in 1..Len(ivs[nodes[i]]) |->
                             <<i, ivs[nodes[i]][k][1], ivs[nodes[i]][k][2]>>],
             <<>>, [i \in 1..NI |-> i]), Less3)

RECURSIVE Order(_, _)
Order(lo, hi) == IF lo > NB + 1 THEN <<>>
                 ELSE IF hi > NB + 1 THEN Order(lo + 1, lo + 1)
                 ELSE <<<<lo, hi>>>> \o Order(lo, hi + 1)
AllQueries == IF Mode = "trace" THEN <<>> ELSE Order(0, 0)
(* for each query the nodes with an interval that overlaps it *)
Found(index, q) ==
    SetToSortSeq({index[k][1] : k \in {j \in 1..Len(index) : index[j][2] <= q[2] /\ q[1] <= index[j][3]}},
                 LAMBDA a, b : a < b)

----------------------------------------------------------------------------
(* Operations. S: g what the operation's context sees, idx, u.               *)

Next1(id) == IF id = NI THEN 1 ELSE id + 1
NextV(v) == IF v = NV THEN 1 ELSE v + 1

(* the plugin comes after the k-th trigger *)
Indexes(k) == \E j \in k..Len(regs) : regs[j] = "P"
(* the id of the target of a delete after the triggers before it *)
RECURSIVE Offered(_, _)
Offered(k, id) == IF k > Len(regs) THEN id
                  ELSE Offered(k + 1, IF regs[k] = "delid" THEN Next1(id) ELSE id)

RECURSIVE Before(_, _, _, _)
Before(k, id, v, arm) ==
    IF k > Len(regs) THEN [ok |-> TRUE, id |-> id, v |-> v]
    ELSE CASE regs[k] = "alter"  -> Before(k + 1, id, NextV(v), arm)
           [] regs[k] = "rename" -> Before(k + 1, Next1(id), v, arm)
           [] regs[k] = "fBS" /\ arm = "fBS" -> [ok |-> FALSE, id |-> id, v |-> v]
           [] OTHER -> Before(k + 1, id, v, arm)

RECURSIVE DoSave(_, _, _, _), DoDel(_, _, _), AfterSave(_, _, _, _, _), AfterDel(_, _, _, _)
AfterSave(S, k, id, v, arm) ==
    IF k > Len(regs) THEN S
    ELSE CASE regs[k] = "P" -> AfterSave([S EXCEPT !.idx[id] = v, !.u = TRUE], k + 1, id, v, arm)
           [] regs[k] = "fAS" /\ arm = "fAS" -> [S EXCEPT !.ok = FALSE]
           [] regs[k] = "follow" /\ S.g[Next1(id)] = 0 ->
                LET R == DoSave(S, arm, Next1(id), v) IN
                IF R.ok THEN AfterSave(R, k + 1, id, v, arm) ELSE R
           [] regs[k] = "hide" /\ arm = "hide" ->
                LET R == DoSave(S, "", Next1(id), v) IN
                AfterSave([R EXCEPT !.g = S.g], k + 1, id, v, arm)
           [] regs[k] = "lateval" -> AfterSave([S EXCEPT !.alt = @ \/ Indexes(k)], k + 1, id, NextV(v), arm)
           [] regs[k] = "lateid" -> AfterSave([S EXCEPT !.alt = @ \/ Indexes(k)], k + 1, Next1(id), v, arm)
           [] OTHER -> AfterSave(S, k + 1, id, v, arm)
DoSave(S, arm, id, v) ==
    LET b == Before(1, id, v, arm) IN
    IF ~b.ok THEN [S EXCEPT !.ok = FALSE]
    ELSE LET R == AfterSave([S EXCEPT !.g[b.id] = b.v], 1, b.id, b.v, arm) IN
         IF R.ok THEN R ELSE [R EXCEPT !.g = S.g]

AfterDel(S, k, id, arm) ==
    IF k > Len(regs) THEN S
    ELSE CASE regs[k] = "P" -> AfterDel([S EXCEPT !.idx[id] = 0, !.u = TRUE], k + 1, id, arm)
           [] regs[k] = "fAD" /\ arm = "fAD" -> [S EXCEPT !.ok = FALSE]
           [] regs[k] = "cascade" /\ S.g[Next1(id)] # 0 ->
                LET R == DoDel(S, arm, Next1(id)) IN
                IF R.ok THEN AfterDel(R, k + 1, id, arm) ELSE R
           [] OTHER -> AfterDel(S, k + 1, id, arm)
DoDel(S, arm, id) ==
    IF S.g[id] = 0 \/ (arm = "fBD" /\ \E k \in 1..Len(regs) : regs[k] = "fBD")
    THEN [S EXCEPT !.ok = FALSE]
    ELSE LET R == AfterDel([S EXCEPT !.g[id] = 0, !.alt = @ \/ (Offered(1, id) # id /\ Indexes(1))],
                           1, Offered(1, id), arm) IN
         IF R.ok THEN R ELSE [R EXCEPT !.g = S.g]

----------------------------------------------------------------------------
Top(g, vs) == IF vs = <<>> THEN g ELSE vs[Len(vs)]

Proj(g, vs, ix) ==
    LET i == IndexOf(Top(g, vs))
        c == IndexOf(ix)
    IN [v |-> Top(g, vs), i |-> i,
        n |-> [k \in 1..Len(AllQueries) |-> Found(i, AllQueries[k])],
        coded |-> IF c = i THEN <<>> ELSE <<c>>]

Rec(e) == hist' = CASE Mode = "sim"   -> Append(hist, e @@ [x |-> Proj(graph', views', idx')])
                    [] Mode = "trace" -> <<e @@ [x |-> Proj(graph', views', idx')]>>
                    [] OTHER          -> Append(hist, e)

Odd == [i \in Ids |-> IF i % 2 = 0 THEN 0 ELSE 1 + ((i + 1) % NV)]
Init == /\ regs \in Families[RegSet]
        /\ graph \in {[i \in Ids |-> 0], Odd}
        /\ ivs = Table
        /\ views = <<>>
        /\ idx = graph
        /\ undone = FALSE
        /\ hist = <<[a |-> "Init", ni |-> NI, nv |-> NV, nb |-> NB, regs |-> regs, g |-> graph, ivs |-> ivs]>>

Op(R, e) ==
    /\ IF views = <<>> THEN graph' = R.g /\ UNCHANGED views
       ELSE views' = [views EXCEPT ![Len(views)] = R.g] /\ UNCHANGED graph
    /\ idx' = R.idx
    \* whatever the plugin did is kept even if the operation failed or hid a failure
    /\ undone' = (undone \/ (R.u /\ (~R.ok \/ e.arm = "hide")) \/ R.alt)
    /\ UNCHANGED <<regs, ivs>>
    /\ Rec(e @@ [r |-> R.ok])
S0 == [ok |-> TRUE, g |-> Top(graph, views), idx |-> idx, u |-> FALSE, alt |-> FALSE]

Save(id, v, arm) == Op(DoSave(S0, arm, id, v), [a |-> "Save", id |-> id, v |-> v, arm |-> arm])
Del(id, arm) == Op(DoDel(S0, arm, id), [a |-> "Del", id |-> id, arm |-> arm])

Begin == /\ Len(views) < MaxDepth
         /\ views' = Append(views, Top(graph, views))
         /\ UNCHANGED <<regs, ivs, graph, idx, undone>>
         /\ Rec([a |-> "Begin"])
End(ok) ==
    /\ views # <<>>
    /\ LET n == Len(views) IN
       IF ~ok THEN views' = SubSeq(views, 1, n - 1) /\ UNCHANGED graph
       ELSE IF n = 1 THEN views' = <<>> /\ graph' = views[1]
       ELSE views' = [SubSeq(views, 1, n - 1) EXCEPT ![n - 1] = views[n]] /\ UNCHANGED graph
    /\ undone' = (undone \/ (~ok /\ Top(graph, views) # Top(graph', views')))
    /\ UNCHANGED <<regs, ivs, idx>>
    /\ Rec([a |-> "End", ok |-> ok])

Has(t) == \E k \in 1..Len(regs) : regs[k] = t
Arm(ts) == {""} \cup {t \in ts \cap Arms : Has(t)}
Next ==
    \/ \E id \in Ids, v \in Vals, arm \in Arm({"fBS", "fAS", "hide"}) : Save(id, v, arm)
    \/ \E id \in Ids, arm \in Arm({"fBD", "fAD"}) : Del(id, arm)
    \/ Begin
    \/ End(TRUE)
    \/ "abort" \in Arms /\ End(FALSE)

Spec == Init /\ [][Next]_vars
BNext == Len(hist) < MaxLen /\ Next
BSpec == Init /\ [][BNext]_vars
Emit == Mode # "test" \/ PrintT("@T" \o ToJson([h |-> hist', x |-> Proj(graph', views', idx')]))
EmitSim == \/ Mode # "sim"
           \/ Len(hist) < MaxLen
           \/ PrintT("@S" \o ToJson(hist))

----------------------------------------------------------------------------
TypeOK == /\ \A i \in Ids : graph[i] \in 0..NV /\ idx[i] \in 0..NV
          /\ Len(views) <= MaxDepth

(* C19: as long as nothing the plugin noticed was undone, and it was given  *)
(* what was saved or deleted, its index is that of the nodes.               *)
SameUnlessUndone == undone \/ idx = Top(graph, views)

(* The required index says for each node what it has, and nothing else.     *)
Mirrors ==
    LET g == Top(graph, views)
        index == IndexOf(g)
    IN /\ \A k \in 1..Len(index) : LET e == index[k] IN
            g[e[1]] # 0 /\ \E j \in 1..Len(ivs[g[e[1]]]) : ivs[g[e[1]]][j] = <<e[2], e[3]>>
       /\ \A i \in Ids : g[i] # 0 =>
            \A j \in 1..Len(ivs[g[i]]) :
               Cardinality({k \in 1..Len(index) : index[k] = <<i, ivs[g[i]][j][1], ivs[g[i]][j][2]>>})
                 = Cardinality({k \in 1..Len(ivs[g[i]]) : ivs[g[i]][k] = ivs[g[i]][j]})

(* A failed operation changes no node.                                      *)
FailedChangesNothing ==
    [][(hist' # hist /\ "r" \in DOMAIN hist'[Len(hist')] /\ ~hist'[Len(hist')].r)
         => Top(graph', views') = Top(graph, views)]_vars
=============================================================================
