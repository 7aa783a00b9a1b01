--------------------------- MODULE LazyDocuments ----------------------------
(***************************************************************************)
(* Lazy documents over a repository (plotline/src/document/lazy.rs), used   *)
(* from several threads at once.                                            *)
(*                                                                          *)
(* A document is identified by its id and a version. The repository is the  *)
(* environment: a call for a document is pending until it is answered, with *)
(* any version or with nothing (0), so every interleaving of the calls of   *)
(* several threads is a behaviour of this specification. While a call is    *)
(* pending, the repository may itself resolve other lazy documents on that  *)
(* thread (stk is the stack of pending calls of a thread).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NI, NV, NH, NT, MaxDepth, MaxLen, Mode, Acts, AnySlot

Ids  == 1..NI
Vers == 1..NV
Slots == 1..NH
Threads == 1..NT

VARIABLES docs, stk, hist
core == <<docs, stk>>
vars == <<docs, stk, hist>>

NoDoc == [id |-> 0, val |-> -1]       \* val -1: not loaded
Live(h) == docs[h].id # 0
Range(s) == {s[k] : k \in 1..Len(s)}
Loading(h) == {t \in Threads : h \in Range(stk[t])}

Proj == [d |-> docs]
Rec(e) == hist' = CASE Mode = "sim"   -> Append(hist, e @@ [x |-> Proj'])
                    [] Mode = "trace" -> <<e @@ [x |-> Proj']>>
                    [] OTHER          -> Append(hist, e)

Init == /\ docs = [h \in Slots |-> NoDoc]
        /\ stk = [t \in Threads |-> <<>>]
        /\ hist = <<[a |-> "Init", nh |-> NH, nt |-> NT]>>

Free(h) == ~Live(h) /\ (AnySlot \/ \A q \in Slots : q < h => Live(q))

(* made by a builder: not loaded *)
Build(h, id) ==
    /\ Free(h)
    /\ docs' = [docs EXCEPT ![h] = [id |-> id, val |-> -1]]
    /\ UNCHANGED stk
    /\ Rec([a |-> "Build", h |-> h, id |-> id])

(* made of a document: loaded from the start *)
Make(h, id, v) ==
    /\ Free(h)
    /\ docs' = [docs EXCEPT ![h] = [id |-> id, val |-> v]]
    /\ UNCHANGED stk
    /\ Rec([a |-> "Make", h |-> h, id |-> id, v |-> v])

Clone(h, q) ==
    /\ Live(h) /\ Free(q)
    /\ docs' = [docs EXCEPT ![q] = docs[h]]
    /\ UNCHANGED stk
    /\ Rec([a |-> "Clone", h |-> h, q |-> q])

Drop(h) ==
    /\ Live(h) /\ Loading(h) = {}
    /\ docs' = [docs EXCEPT ![h] = NoDoc]
    /\ UNCHANGED stk
    /\ Rec([a |-> "Drop", h |-> h])

(* A thread resolves a document. r: -2 pending; ask: the id the repository is asked for, 0 if none *)
Begin(t, h) ==
    /\ Live(h) /\ h \notin Range(stk[t]) /\ Len(stk[t]) < MaxDepth
    /\ IF docs[h].val # -1
       THEN /\ UNCHANGED <<docs, stk>>
            /\ Rec([a |-> "Begin", t |-> t, h |-> h, ask |-> 0, r |-> docs[h].val])
       ELSE /\ stk' = [stk EXCEPT ![t] = Append(@, h)]
            /\ UNCHANGED docs
            /\ Rec([a |-> "Begin", t |-> t, h |-> h, ask |-> docs[h].id, r |-> -2])

(* The repository answers the innermost pending call of a thread, or panics (p), which is as good as
   nothing; the panic reaches the caller. If it has nothing but a concurrent resolution loaded the
   document meanwhile, either answer will do. *)
Answer(t, v, p) ==
    /\ stk[t] # <<>>
    /\ p => v = 0
    /\ LET h == stk[t][Len(stk[t])]
           held == docs[h].val
           now == IF held # -1 THEN held ELSE IF v = 0 THEN -1 ELSE v
       IN
       /\ docs' = [docs EXCEPT ![h].val = now]
       /\ stk' = [stk EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
       /\ IF v = 0 /\ held # -1
          THEN \/ Rec([a |-> "Answer", t |-> t, v |-> v, p |-> p, r |-> held, alt |-> 0])
               \/ Mode = "trace" /\ Rec([a |-> "Answer", t |-> t, v |-> v, p |-> p, r |-> 0])
          ELSE Rec([a |-> "Answer", t |-> t, v |-> v, p |-> p, r |-> IF held # -1 THEN held ELSE v])

(* n threads resolve a document at once, uncontrolled; the repository answers every call, with versions
   1, 2, ... n of its own. (Recorded executions only: which one wins is not up to the specification.) *)
Race(h, n, won) ==
    /\ Live(h) /\ Loading(h) = {}
    /\ IF docs[h].val # -1 THEN won = docs[h].val ELSE won \in 1..n
    /\ docs' = [docs EXCEPT ![h].val = won]
    /\ UNCHANGED stk
    /\ Rec([a |-> "Race", h |-> h, n |-> n, rs |-> [k \in 1..n |-> won]])

Next ==
    \/ \E h \in Slots, id \in Ids : Build(h, id) \/ ("Make" \in Acts /\ \E v \in Vers : Make(h, id, v))
    \/ "Clone" \in Acts /\ \E h, q \in Slots : Clone(h, q)
    \/ "Drop" \in Acts /\ \E h \in Slots : Drop(h)
    \/ \E t \in Threads, h \in Slots : Begin(t, h)
    \/ \E t \in Threads, v \in 0..NV : Answer(t, v, FALSE)
    \/ "Panic" \in Acts /\ \E t \in Threads : Answer(t, 0, TRUE)

Spec == Init /\ [][Next]_vars
BNext == Len(hist) < MaxLen /\ Next
BSpec == Init /\ [][BNext]_vars
Emit == Mode # "test" \/ PrintT("@T" \o ToJson([h |-> hist', x |-> Proj']))
EmitSim == \/ Mode # "sim"
           \/ Len(hist) < MaxLen
           \/ PrintT("@S" \o ToJson(hist))

-----------------------------------------------------------------------------
TypeOK == /\ \A h \in Slots : docs[h].id \in 0..NI /\ docs[h].val \in ({-1} \cup 1..NV)
          /\ \A t \in Threads : \A h \in Range(stk[t]) : Live(h)

Happened(e) == hist' # hist /\ hist'[Len(hist')].a = e
E == hist'[Len(hist')]

(* C13: a loaded document is never replaced nor forgotten *)
Keeps == [][\A h \in Slots : (Live(h) /\ docs[h].val # -1 /\ docs'[h].id # 0) => docs'[h] = docs[h]]_vars
(* C13: absence is not reported when the document was supplied to this call or before it *)
NeverAbsent == [][(Happened("Answer") /\ E.v # 0) => E.r # 0]_vars
NeverAbsentLater == [][(Happened("Begin") /\ docs[E.h].val # -1) => E.r = docs[E.h].val]_vars
(* C13: the repository is consulted if and only if the document is not loaded *)
OnDemand == [][Happened("Begin") => (E.ask = IF docs[E.h].val = -1 THEN docs[E.h].id ELSE 0)]_vars
(* C13: a failed load is not remembered *)
FailureForgotten == [][(Happened("Answer") /\ E.v = 0) => docs' = docs]_vars
(* C13: only an answered call loads *)
LoadsByAnswer == [][\A h \in Slots : (Live(h) /\ docs[h].val = -1 /\ docs'[h].val # -1) => Happened("Answer") /\ E.v = docs'[h].val]_vars
=============================================================================
