------------------------------ MODULE Resources -----------------------------
(***************************************************************************)
(* Resources, targets and scoped access to one or several of them           *)
(* (plotline/src/schema/resource.rs, transaction.rs (Target), deref.rs).    *)
(*                                                                          *)
(* A value lives in a cell.  Type 0 stands for transaction targets, types   *)
(* 1..NR for resource types.  reg maps a type to the cell registered last.  *)
(* A handle refers to the cell its type had when the handle was made (0: to *)
(* nothing).  Scopes are the running closures of with / with_mut, innermost *)
(* last.                                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NR, NH, NC,   \* resource types, handle slots, cells
          NV,           \* values 1..NV
          MaxArity, MaxDepth, MaxLen, Mode, Acts,
          AnySlot,      \* FALSE: take the least free slot
          Ready         \* TRUE: start with all types registered and all handles made

Types == 0..NR
RTypes == 1..NR
Handles == 1..NH
Cells == 1..NC
Vals == 1..NV

VARIABLES reg, cell, hnd, scopes, hist
core == <<reg, cell, hnd, scopes>>
vars == <<reg, cell, hnd, scopes, hist>>

NoCell == [ty |-> -1, v |-> 0, dead |-> FALSE]
NoHnd  == [ty |-> -1, c |-> 0]

Last(s)  == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Range(s) == {s[i] : i \in 1..Len(s)}

Avail(c) == c # 0 /\ ~cell[c].dead
Val(c) == IF Avail(c) THEN cell[c].v ELSE 0

Held(w) == UNION {Range(scopes[i].cs) : i \in {j \in 1..Len(scopes) : scopes[j].w = w}}
WriteLocked == Held(TRUE)
ReadLocked  == Held(FALSE)
Borrowed == UNION {Range(scopes[i].hs) : i \in 1..Len(scopes)}

FreeCells == {c \in Cells : cell[c].ty = -1}
NewCell == CHOOSE c \in FreeCells : \A d \in FreeCells : c <= d

(* a value cannot be observed while somebody in scope is writing            *)
Quiet == WriteLocked = {}
Proj == [ types |-> IF Quiet THEN [t \in RTypes |-> Val(reg[t])] ELSE <<>>,
          hs    |-> IF Quiet THEN [h \in Handles |-> IF hnd[h].ty = -1 THEN -1 ELSE Val(hnd[h].c)] ELSE <<>>,
          s     |-> IF scopes = <<>> THEN <<>> ELSE [i \in 1..Len(Last(scopes).cs) |-> cell[Last(scopes).cs[i]].v] ]

Rec(e) == hist' = CASE Mode = "sim"   -> Append(hist, e @@ [x |-> Proj'])
                    [] Mode = "trace" -> <<e @@ [x |-> Proj']>>
                    [] OTHER          -> Append(hist, e)

TypeOfSlot(h) == ((h - 1) % NR) + 1
Init == /\ reg = [t \in RTypes |-> IF Ready THEN t ELSE 0]
        /\ cell = [c \in Cells |-> IF Ready /\ c \in RTypes THEN [ty |-> c, v |-> c, dead |-> FALSE] ELSE NoCell]
        /\ hnd = [h \in Handles |-> IF Ready THEN [ty |-> TypeOfSlot(h), c |-> TypeOfSlot(h)] ELSE NoHnd]
        /\ scopes = <<>>
        /\ hist = <<[a |-> "Init", nr |-> NR, nh |-> NH, ready |-> Ready]>>

(* schema.with_resource(v): replaces the cell of the type                   *)
Reg(ty, v) ==
    /\ FreeCells # {}
    /\ cell' = [cell EXCEPT ![NewCell] = [ty |-> ty, v |-> v, dead |-> FALSE]]
    /\ reg' = [reg EXCEPT ![ty] = NewCell]
    /\ UNCHANGED <<hnd, scopes>>
    /\ Rec([a |-> "Reg", ty |-> ty, v |-> v])

Free(h) == /\ hnd[h].ty = -1
           /\ AnySlot \/ \A g \in Handles : g < h => hnd[g].ty # -1

(* Res::from(set) or Res::from(&ctx) / an empty Target                      *)
Get(h, ty) ==
    /\ Free(h)
    /\ hnd' = [hnd EXCEPT ![h] = [ty |-> ty, c |-> IF ty = 0 THEN 0 ELSE reg[ty]]]
    /\ UNCHANGED <<reg, cell, scopes>>
    /\ Rec([a |-> "Get", h |-> h, ty |-> ty])

(* target.set(v): this handle gets a new cell, clones keep the old one      *)
SetT(h, v) ==
    /\ hnd[h].ty = 0 /\ h \notin Borrowed /\ FreeCells # {}
    /\ cell' = [cell EXCEPT ![NewCell] = [ty |-> 0, v |-> v, dead |-> FALSE]]
    /\ hnd' = [hnd EXCEPT ![h].c = NewCell]
    /\ UNCHANGED <<reg, scopes>>
    /\ Rec([a |-> "SetT", h |-> h, v |-> v])

Clone(h, g) ==
    /\ hnd[h].ty = 0 /\ Free(g)
    /\ hnd' = [hnd EXCEPT ![g] = hnd[h]]
    /\ UNCHANGED <<reg, cell, scopes>>
    /\ Rec([a |-> "Clone", h |-> h, g |-> g])

Drop(h) ==
    /\ hnd[h].ty # -1 /\ h \notin Borrowed
    /\ hnd' = [hnd EXCEPT ![h] = NoHnd]
    /\ UNCHANGED <<reg, cell, scopes>>
    /\ Rec([a |-> "Drop", h |-> h])

CellsOf(hs) == [i \in 1..Len(hs) |-> hnd[hs[i]].c]
Live(hs) == {i \in 1..Len(hs) : Avail(hnd[hs[i]].c)}

(* the call would wait for itself otherwise                                 *)
Lockable(w, hs) ==
    LET cs == CellsOf(hs) IN
    /\ \A i \in Live(hs) : cs[i] \notin WriteLocked
    /\ w => /\ \A i \in Live(hs) : cs[i] \notin ReadLocked
            /\ \A i, j \in Live(hs) : i # j => cs[i] # cs[j]

(* (hs...).with / with_mut: the closure starts iff every value is available *)
Enter(w, hs) ==
    /\ Len(scopes) < MaxDepth
    /\ \A i \in 1..Len(hs) : hnd[hs[i]].ty # -1
    /\ Lockable(w, hs)
    /\ IF Live(hs) = 1..Len(hs)
       THEN /\ scopes' = Append(scopes, [w |-> w, hs |-> hs, cs |-> CellsOf(hs)])
            /\ UNCHANGED <<reg, cell, hnd>>
            /\ Rec([a |-> "Enter", w |-> w, hs |-> hs, r |-> "in"])
       ELSE /\ UNCHANGED core
            /\ Rec([a |-> "Enter", w |-> w, hs |-> hs, r |-> "none"])

(* The same while another thread is in scoped access to the k-th value, a   *)
(* target (targets can be sent to other threads): writing v, or reading if  *)
(* v = 0. The call waits until the other thread has left.                   *)
Contend(w, hs, k, v) ==
    /\ scopes = <<>>
    /\ \A i \in 1..Len(hs) : hnd[hs[i]].ty # -1
    /\ hnd[hs[k]].ty = 0 /\ Avail(hnd[hs[k]].c)
    /\ v = 0 => w
    /\ Lockable(w, hs)
    /\ cell' = IF v = 0 THEN cell ELSE [cell EXCEPT ![hnd[hs[k]].c].v = v]
    /\ UNCHANGED <<reg, hnd>>
    /\ IF Live(hs) = 1..Len(hs)
       THEN /\ scopes' = Append(scopes, [w |-> w, hs |-> hs, cs |-> CellsOf(hs)])
            /\ Rec([a |-> "Contend", w |-> w, hs |-> hs, k |-> k, v |-> v, r |-> "in"])
       ELSE /\ UNCHANGED scopes
            /\ Rec([a |-> "Contend", w |-> w, hs |-> hs, k |-> k, v |-> v, r |-> "none"])

(* the innermost closure writes its i-th value                              *)
Put(i, v) ==
    /\ scopes # <<>> /\ Last(scopes).w /\ i <= Len(Last(scopes).cs)
    /\ cell' = [cell EXCEPT ![Last(scopes).cs[i]].v = v]
    /\ UNCHANGED <<reg, hnd, scopes>>
    /\ Rec([a |-> "Put", i |-> i, v |-> v])

Leave ==
    /\ scopes # <<>>
    /\ scopes' = Front(scopes)
    /\ UNCHANGED <<reg, cell, hnd>>
    /\ Rec([a |-> "Leave", r |-> "out"])

(* a panic unwinds the n innermost closures and is caught there             *)
Panic(n) ==
    /\ n \in 1..Len(scopes)
    /\ LET gone == {i \in Len(scopes)-n+1..Len(scopes) : scopes[i].w}
           dead == UNION {Range(scopes[i].cs) : i \in gone}
       IN cell' = [c \in Cells |-> IF c \in dead THEN [cell[c] EXCEPT !.dead = TRUE] ELSE cell[c]]
    /\ scopes' = SubSeq(scopes, 1, Len(scopes) - n)
    /\ UNCHANGED <<reg, hnd>>
    /\ Rec([a |-> "Panic", n |-> n, r |-> "panic"])

Used == {cell[c].v : c \in Cells}
Offer == {v \in Vals : v \notin Used /\ \A w \in Vals \ Used : v <= w}
On(n) == n \in Acts
Tuples == UNION {[1..n -> Handles] : n \in 1..MaxArity}
LiveHandles == {h \in Handles : hnd[h].ty # -1}

Next ==
    \/ \E ty \in RTypes, v \in Offer : Reg(ty, v)
    \/ \E h \in Handles, ty \in RTypes : Get(h, ty)
    \/ On("Target") /\ \E h \in Handles : Get(h, 0)
    \/ On("Target") /\ \E h \in Handles, v \in Offer : SetT(h, v)
    \/ On("Target") /\ \E h, g \in Handles : Clone(h, g)
    \/ On("Drop") /\ \E h \in Handles : Drop(h)
    \/ \E w \in BOOLEAN, n \in 1..MaxArity : \E hs \in [1..n -> LiveHandles] : Enter(w, hs)
    \/ On("Long") /\ \E w \in BOOLEAN, n \in 2..6, s \in 0..1 :
          LET hs == [i \in 1..n |-> IF s = 0 THEN i ELSE NH + 1 - i] IN
          (\A i \in 1..n : hs[i] \in LiveHandles) /\ Enter(w, hs)
    \/ On("Contend") /\ \E w \in BOOLEAN, n \in 1..MaxArity : \E hs \in [1..n -> LiveHandles], k \in 1..n, v \in {0} \cup Offer :
          Contend(w, hs, k, v)
    \/ \E i \in 1..(IF On("Long") THEN 6 ELSE MaxArity), v \in Offer : Put(i, v)
    \/ Leave
    \/ On("Panic") /\ \E n \in 1..MaxDepth : Panic(n)

Spec == Init /\ [][Next]_vars
BNext == Len(hist) < MaxLen /\ Next
BSpec == Init /\ [][BNext]_vars
Emit == Mode # "test" \/ PrintT("@T" \o ToJson([h |-> hist', x |-> Proj']))
EmitSim == \/ Mode # "sim"
           \/ Len(hist) < MaxLen
           \/ PrintT("@S" \o ToJson(hist))

-----------------------------------------------------------------------------
(* Properties                                                               *)

TypeOK ==
    /\ \A t \in RTypes : reg[t] \in {0} \cup Cells /\ (reg[t] # 0 => cell[reg[t]].ty = t)
    /\ \A h \in Handles : /\ hnd[h].ty \in -1..NR
                          /\ hnd[h].c # 0 => cell[hnd[h].c].ty = hnd[h].ty
    /\ \A i \in 1..Len(scopes) : \A c \in Range(scopes[i].cs) : c \in Cells /\ ~cell[c].dead

(* C20: whoever writes is alone                                             *)
WriterAlone ==
    \A i, j \in 1..Len(scopes) :
        (i # j /\ scopes[i].w) => Range(scopes[i].cs) \cap Range(scopes[j].cs) = {}

Happened(e) == hist' # hist /\ Last(hist').a = e

(* C10: one value per type, the last one registered *)
LastRegistered ==
    [][\A t \in RTypes : reg'[t] # reg[t] =>
         Happened("Reg") /\ Last(hist').ty = t /\ cell'[reg'[t]].v = Last(hist').v]_vars

(* C10: a value changes only when somebody writes it *)
ChangedOnlyByWriters ==
    [][\A c \in Cells : (cell[c].ty # -1 /\ cell'[c].v # cell[c].v) =>
         \/ Happened("Put") /\ c \in Range(Last(scopes).cs) /\ Last(scopes).w
         \/ Happened("Contend") /\ c = hnd[Last(hist').hs[Last(hist').k]].c]_vars

(* C10: only a panic while writing it makes a value unavailable, for good *)
DiesOnlyByPanic ==
    [][\A c \in Cells : (cell[c].ty # -1 /\ cell'[c].dead # cell[c].dead) =>
         cell'[c].dead /\ Happened("Panic") /\ c \in WriteLocked]_vars

(* C20: all or nothing *)
AllOrNothing ==
    [][Happened("Enter") \/ Happened("Contend") =>
         LET e == Last(hist') IN
         IF \A i \in 1..Len(e.hs) : Avail(hnd[e.hs[i]].c)
         THEN /\ e.r = "in" /\ Len(scopes') = Len(scopes) + 1
              /\ \A i \in 1..Len(e.hs) : Last(scopes').cs[i] = hnd[e.hs[i]].c
              /\ e.a = "Enter" => cell' = cell
         ELSE e.r = "none" /\ scopes' = scopes /\ (e.a = "Enter" => cell' = cell)]_vars
=============================================================================
