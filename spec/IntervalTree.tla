---------------------------- MODULE IntervalTree ----------------------------
(***************************************************************************)
(* The interval search tree (plugins/interval/src/{lib,tree,node}.rs): a    *)
(* binary search tree on the lower bounds in which every node knows the     *)
(* greatest upper bound below it.                                           *)
(*                                                                          *)
(* The specification has two layers: `bag`, the multiset of stored          *)
(* intervals, which defines what a user may observe, and `tree`, the shape  *)
(* the algorithm builds, which is checked to represent the bag (Refines)    *)
(* and makes TLC produce every operation on every shape as a test. The      *)
(* conformance checks compare only what the bag determines.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS NB, NT, MaxSize, MaxLen, Mode, Acts

Bounds == 1..NB
\* an interval and a tag that tells intervals with equal bounds apart
Elems == {e \in Bounds \X Bounds \X (1..NT) : e[1] <= e[2]}

VARIABLES tree, bag, hist
vars == <<tree, bag, hist>>
core == tree

----------------------------------------------------------------------------
(* The bag: a function from the stored elements to their number.            *)

Nothing == [e \in {} |-> 0]
Held(b) == DOMAIN b
Times(b, e) == IF e \in DOMAIN b THEN b[e] ELSE 0
With(b, e) == [x \in DOMAIN b \cup {e} |-> IF x = e THEN Times(b, e) + 1 ELSE b[x]]
Without(b, e) == IF Times(b, e) <= 1 THEN [x \in DOMAIN b \ {e} |-> b[x]]
                 ELSE [b EXCEPT ![e] = @ - 1]

Overlap(e, lo, hi) == e[1] <= hi /\ lo <= e[2]
Hits(b, lo, hi) == {e \in Held(b) : Overlap(e, lo, hi)}

(* Elements in order, as often as they are stored.                          *)
Before(x, y) == \/ x[1] < y[1]
                \/ x[1] = y[1] /\ x[2] < y[2]
                \/ x[1] = y[1] /\ x[2] = y[2] /\ x[3] < y[3]
Listed(b) == FoldLeft(LAMBDA s, e : s \o [k \in 1..b[e] |-> e], <<>>,
                      SetToSortSeq(Held(b), Before))
Among(s, lo, hi) == SelectSeq(s, LAMBDA e : Overlap(e, lo, hi))

----------------------------------------------------------------------------
(* The tree: Nil or <<element, max, left, right>>.                          *)

Nil == <<>>
Max2(a, b) == IF a < b THEN b ELSE a
MaxOf(t) == IF t = Nil THEN 0 ELSE t[2]
Mk(v, l, r) == <<v, Max2(v[2], Max2(MaxOf(l), MaxOf(r))), l, r>>

RECURSIVE Ins(_, _)
Ins(t, v) ==
    IF t = Nil THEN Mk(v, Nil, Nil)
    ELSE IF v[1] < t[1][1] THEN <<t[1], Max2(t[2], v[2]), Ins(t[3], v), t[4]>>
    ELSE <<t[1], Max2(t[2], v[2]), t[3], Ins(t[4], v)>>

RECURSIVE Inorder(_)
Inorder(t) == IF t = Nil THEN <<>> ELSE Inorder(t[3]) \o <<t[1]>> \o Inorder(t[4])

(* Joining two subtrees rebuilds one from the middle of their elements.     *)
RECURSIVE Fill(_, _)
Fill(t, s) ==
    IF s = <<>> THEN t
    ELSE LET c == Len(s) \div 2 + 1 IN
         Fill(Fill(Ins(t, s[c]), SubSeq(s, 1, c - 1)), SubSeq(s, c + 1, Len(s)))
Join(l, r) == Fill(Nil, Inorder(l) \o Inorder(r))

RECURSIVE Del(_, _)
Del(t, v) ==
    IF t = Nil THEN Nil
    ELSE IF t[1] = v THEN
         IF t[3] # Nil /\ t[4] # Nil THEN Join(t[3], t[4])
         ELSE IF t[3] # Nil THEN t[3] ELSE t[4]
    ELSE IF v[1] < t[1][1] THEN Mk(t[1], Del(t[3], v), t[4])
    ELSE Mk(t[1], t[3], Del(t[4], v))

(* The queries as the algorithm performs them, cut short by `max`.          *)
RECURSIVE Visits(_, _, _)
Visits(t, lo, hi) ==
    IF t = Nil THEN <<>>
    ELSE Visits(t[4], lo, hi)
         \o (IF Overlap(t[1], lo, hi) THEN <<t[1]>> ELSE <<>>)
         \o (IF t[3] = Nil \/ MaxOf(t[3]) < lo THEN <<>> ELSE Visits(t[3], lo, hi))

RECURSIVE Answers(_, _, _)
Answers(t, lo, hi) ==
    IF t = Nil THEN FALSE
    ELSE \/ Overlap(t[1], lo, hi)
         \/ IF t[3] = Nil \/ MaxOf(t[3]) < lo THEN Answers(t[4], lo, hi)
            ELSE Answers(t[3], lo, hi)

----------------------------------------------------------------------------

Queries == {q \in (0..NB + 1) \X (0..NB + 1) : q[1] <= q[2]}
\* the same queries in a fixed order, which the driver repeats
RECURSIVE Order(_, _)
Order(lo, hi) == IF lo > NB + 1 THEN <<>>
                 ELSE IF hi > NB + 1 THEN Order(lo + 1, lo + 1)
                 ELSE <<<<lo, hi>>>> \o Order(lo, hi + 1)

AllQueries == Order(0, 0)
Proj(b) ==
    LET s == Listed(b) IN
    [m |-> s,
     q |-> [k \in 1..Len(AllQueries) |-> Among(s, AllQueries[k][1], AllQueries[k][2])],
     i |-> [k \in 1..Len(AllQueries) |-> Hits(b, AllQueries[k][1], AllQueries[k][2]) # {}]]

Rec(e) == hist' = CASE Mode = "sim"   -> Append(hist, e @@ [x |-> Proj(bag')])
                    [] Mode = "trace" -> <<e>>
                    [] OTHER          -> Append(hist, e)

Init == tree = Nil /\ bag = Nothing /\ hist = <<[a |-> "Init", nb |-> NB]>>

RECURSIVE Size(_)
Size(t) == IF t = Nil THEN 0 ELSE 1 + Size(t[3]) + Size(t[4])

Insert(e) ==
    /\ bag' = With(bag, e)
    /\ tree' = IF Mode = "trace" THEN Nil ELSE Ins(tree, e)
    /\ Rec([a |-> "Insert", e |-> e])

Delete(e) ==
    /\ bag' = Without(bag, e)
    /\ tree' = IF Mode = "trace" THEN Nil ELSE Del(tree, e)
    /\ Rec([a |-> "Delete", e |-> e])

\* only in recorded executions, where not every query is made after every step
Query(lo, hi) ==
    /\ UNCHANGED <<tree, bag>>
    /\ Rec([a |-> "Query", lo |-> lo, hi |-> hi, q |-> Among(Listed(bag), lo, hi),
            i |-> (Hits(bag, lo, hi) # {})])
Look ==
    /\ UNCHANGED <<tree, bag>>
    /\ Rec([a |-> "Look", m |-> Listed(bag)])

Next == \E e \in Elems :
    \/ Size(tree) < MaxSize /\ Insert(e)
    \/ Delete(e)

(* A random walk draws its elements instead of trying them all.             *)
Walk ==
    \/ Size(tree) < MaxSize /\ \E e \in {RandomElement(Elems), RandomElement(Elems)} : Insert(e)
    \/ \E e \in {RandomElement(Elems)} \cup (IF bag = Nothing THEN {} ELSE {RandomElement(Held(bag))}) :
           Delete(e)

Spec == Init /\ [][Next]_vars
BNext == Len(hist) < MaxLen /\ IF Mode = "sim" THEN Walk ELSE Next
BSpec == Init /\ [][BNext]_vars

Emit == Mode # "test" \/ PrintT("@T" \o ToJson([h |-> hist', x |-> Proj(bag')]))
EmitSim == \/ Mode # "sim"
           \/ Len(hist) < MaxLen
           \/ PrintT("@S" \o ToJson(hist))

----------------------------------------------------------------------------
(* The tree is a search tree with correct maxima, holding the bag.          *)

RECURSIVE WellFormed(_)
WellFormed(t) ==
    t = Nil \/ /\ WellFormed(t[3]) /\ WellFormed(t[4])
               /\ \A k \in 1..Len(Inorder(t[3])) : Inorder(t[3])[k][1] < t[1][1]
               /\ \A k \in 1..Len(Inorder(t[4])) : Inorder(t[4])[k][1] >= t[1][1]
               /\ t[2] = Max2(t[1][2], Max2(MaxOf(t[3]), MaxOf(t[4])))

RECURSIVE BagOf(_, _)
BagOf(s, b) == IF s = <<>> THEN b ELSE BagOf(Tail(s), With(b, Head(s)))

Refines == BagOf(Inorder(tree), Nothing) = bag
Shape == WellFormed(tree)
(* C16: what the algorithm visits is what overlaps, once per occurrence.    *)
Exact == \A q \in Queries :
    /\ BagOf(Visits(tree, q[1], q[2]), Nothing)
         = [e \in Hits(bag, q[1], q[2]) |-> bag[e]]
    /\ Answers(tree, q[1], q[2]) = (Hits(bag, q[1], q[2]) # {})

(* C17: an operation concerns one occurrence of its element.                *)
E == hist'[Len(hist')]
OneOccurrence ==
    [][/\ hist' # hist /\ Len(hist') > 1
       => /\ \A e \in (Held(bag) \cup Held(bag')) \ {E.e} : Times(bag', e) = Times(bag, e)
          /\ E.a = "Insert" => Times(bag', E.e) = Times(bag, E.e) + 1
          /\ E.a = "Delete" => Times(bag', E.e) = IF Times(bag, E.e) = 0 THEN 0
                                                  ELSE Times(bag, E.e) - 1]_vars
=============================================================================
