-------------------------------- MODULE Dates --------------------------------
(***************************************************************************)
(* Dates of N components (plugins/interval/src/date.rs): their order, and    *)
(* dates as intervals.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Lengths, NV, MaxDates, MaxLen, Mode

VARIABLES endian, n, dates, hist
vars == <<endian, n, dates, hist>>
core == <<endian, n, dates>>

----------------------------------------------------------------------------
(* Comparing as the code does: components from the most significant down.   *)
RECURSIVE Walk(_, _, _)
Walk(a, b, ks) == IF ks = <<>> THEN 0
                  ELSE IF a[ks[1]] < b[ks[1]] THEN -1
                  ELSE IF a[ks[1]] > b[ks[1]] THEN 1
                  ELSE Walk(a, b, Tail(ks))
Significance(en, len) == [k \in 1..len |-> IF en = "big" THEN k ELSE len + 1 - k]
Cmp(en, a, b) == Walk(a, b, Significance(en, Len(a)))

(* Comparing as the property says: the most significant differing component *)
(* decides.                                                                 *)
MoreSignificant(en, j, k) == IF en = "big" THEN j < k ELSE j > k
Less(en, a, b) ==
    \E k \in 1..Len(a) : a[k] < b[k]
        /\ \A j \in 1..Len(a) : MoreSignificant(en, j, k) => a[j] = b[j]

----------------------------------------------------------------------------
Proj(en, ds) ==
    [c |-> [i \in 1..Len(ds) |-> [j \in 1..Len(ds) |-> Cmp(en, ds[i], ds[j])]],
     s |-> SortSeq(ds, LAMBDA a, b : Less(en, a, b)),
     \* a date as an interval meets the dates equal to it
     p |-> [i \in 1..Len(ds) |-> Cardinality({j \in 1..Len(ds) : ds[j] = ds[i]})],
     \* and the interval from one date to another those in between
     b |-> [i \in 1..Len(ds) |-> [j \in 1..Len(ds) |->
             Cardinality({k \in 1..Len(ds) : ~Less(en, ds[k], ds[i])
                                             /\ ~Less(en, ds[j], ds[k])})]]]

Rec(e) == hist' = CASE Mode = "trace" -> <<e @@ [x |-> Proj(endian', dates')]>>
                    [] Mode = "sim"   -> Append(hist, e @@ [x |-> Proj(endian', dates')])
                    [] OTHER          -> Append(hist, e)

Init == /\ endian \in {"big", "little"}
        /\ n \in Lengths
        /\ dates = <<>>
        /\ hist = <<[a |-> "Init", endian |-> endian, n |-> n]>>

Add(d) == /\ dates' = Append(dates, d)
          /\ UNCHANGED <<endian, n>>
          /\ Rec([a |-> "Add", d |-> d])

Next == Len(dates) < MaxDates /\ \E d \in [1..n -> 1..NV] : Add(d)
Spec == Init /\ [][Next]_vars
BNext == Len(hist) < MaxLen /\ Next
BSpec == Init /\ [][BNext]_vars
Emit == Mode # "test" \/ PrintT("@T" \o ToJson([h |-> hist', x |-> Proj(endian', dates')]))
EmitSim == \/ Mode # "sim"
           \/ Len(hist) < MaxLen
           \/ PrintT("@S" \o ToJson(hist))

----------------------------------------------------------------------------
Here == {dates[k] : k \in 1..Len(dates)}
MostSignificantDecides == \A a, b \in Here : (Cmp(endian, a, b) = -1) = Less(endian, a, b)
Total == \A a, b \in Here : Cmp(endian, a, b) = 0 - Cmp(endian, b, a)
EqualWhenSame == \A a, b \in Here : (Cmp(endian, a, b) = 0) = (a = b)
Transitive == \A a, b, c \in Here :
    Cmp(endian, a, b) <= 0 /\ Cmp(endian, b, c) <= 0 => Cmp(endian, a, c) <= 0
=============================================================================
