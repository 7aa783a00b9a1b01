----------------------------- MODULE Operations -----------------------------
(***************************************************************************)
(* Save and delete operations, the triggers they run, and what triggers do  *)
(* (plotline/src/schema/ops/*.rs, trigger.rs, transaction.rs).              *)
(*                                                                          *)
(* The state is the call stack of one thread using one schema:              *)
(*   tx    the closure of a transaction (user code has control)             *)
(*   op    Save::execute / Delete::execute in progress                      *)
(*   sel   ctx.triggers().select(s).execute(&ctx) in progress               *)
(*   trig  the body of a trigger (user code has control)                    *)
(* A step is one decision of user code: something it calls, or how it       *)
(* returns.  op and sel frames have no decisions of their own, so a step    *)
(* extends up to the next point where user code has control.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS NI, NV,      \* ids 1..NI, node values 1..NV
          RegSet,      \* number of the family of registrations, see Families
          MaxDepth,    \* frames
          MaxLog,      \* operations recorded per context
          MaxLen,      \* steps
          Mode, Acts,
          Catches,     \* what callers do about failures: subset of {"prop", "err", "all"}
          FreshVals,
          InitAll

Ids  == 1..NI
Vals == 1..NV
Schedules == {"BS", "AS", "BD", "AD", "X", "Y"}

VARIABLES regs,    \* sequence of [s: schedule, n: arity of the trigger]
          graph, stk,
          cnt,     \* a resource: a counter
          kept,    \* a handle of a target that user code keeps for later
          hist

core == <<regs, graph, stk, cnt, kept>>
vars == <<regs, graph, stk, cnt, kept, hist>>

R(s, n) == [s |-> s, n |-> n]
(* registrations explored by the bounded configurations *)
Families == <<
    \* 1: saves
    { <<>>, <<R("BS",1)>>, <<R("AS",2)>>, <<R("BS",1), R("AS",0)>>, <<R("BD",0), R("BS",3), R("BS",1)>>, <<R("AS",0), R("AS",1)>> },
    \* 2: deletes
    { <<>>, <<R("BD",1)>>, <<R("AD",2)>>, <<R("AD",4), R("BD",0)>>, <<R("BS",0), R("BD",5), R("BD",1)>>, <<R("AD",0), R("AD",1)>> },
    \* 3: order, custom schedules
    { <<R("BS",1), R("X",0), R("BS",6), R("AS",1), R("Y",1), R("X",1)>>, <<R("BD",7), R("AD",8), R("BD",0), R("X",2), R("BS",0)>> },
    \* 4: nesting
    { <<R("BS",1)>>, <<R("AS",0)>>, <<R("BD",1)>>, <<R("AD",0)>>, <<R("BS",0), R("AS",1)>>, <<R("X",1)>> },
    \* 5: nothing
    { <<>> }
>>

-----------------------------------------------------------------------------
(* tgt: the target, tn: its number (to tell it from others a handle may refer to) *)
F0 == [k |-> "", c |-> "prop", s |-> "", n |-> 0, id |-> 0, tgt |-> <<>>, tn |-> 0, dead |-> FALSE,
       ph |-> 0, idx |-> 0, log |-> <<>>]

Last(s)  == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

Hits(log, id) == {k \in 1..Len(log) : log[k].id = id}
LastHit(log, id) == CHOOSE k \in Hits(log, id) : \A j \in Hits(log, id) : j <= k
ApplyLog(log, g) ==
    [id \in DOMAIN g |-> IF Hits(log, id) # {} THEN log[LastHit(log, id)].v ELSE g[id]]

(* what user code on top of the stack sees: every context in the stack is   *)
(* enclosed by those below it                                               *)
RECURSIVE Look(_, _, _, _)
Look(s, i, g, id) == IF i = 0 THEN g[id]
                     ELSE IF Hits(s[i].log, id) # {} THEN s[i].log[LastHit(s[i].log, id)].v
                     ELSE Look(s, i - 1, g, id)
ViewOf(s, g) == [id \in DOMAIN g |-> Look(s, Len(s), g, id)]

(* the frame whose context user code on top of the stack uses *)
CtxOf(s) == CHOOSE i \in 1..Len(s) : /\ s[i].k \in {"tx", "op"}
                                     /\ \A j \in i+1..Len(s) : s[j].k \notin {"tx", "op"}

(* S = [stk, g]; out = [r: "ok"/"err"/"panic", e: which one] *)
OK == [r |-> "ok", e |-> ""]

SchedOf(f) == IF f.k = "sel" THEN f.s
              ELSE IF f.s = "save" THEN (IF f.ph = 1 THEN "BS" ELSE "AS")
                                   ELSE (IF f.ph = 1 THEN "BD" ELSE "AD")
After(f) == {k \in f.idx+1..Len(regs) : regs[k].s = SchedOf(f)}
Least(s) == CHOOSE k \in s : \A j \in s : k <= j

PopS(S) == [S EXCEPT !.stk = Front(@)]

(* the context on top of the stack is committed *)
Commit(S) ==
    LET log == Last(S.stk).log
        T   == PopS(S)
    IN IF T.stk = <<>> THEN [T EXCEPT !.g = ApplyLog(log, @)]
       ELSE [T EXCEPT !.stk[CtxOf(T.stk)].log = @ \o log]

RECURSIVE Run(_), Deliver(_, _)
(* continues the op or sel frame on top of the stack *)
Run(S) ==
    LET f == Last(S.stk)
        i == Len(S.stk)
    IN IF After(f) # {}
       THEN LET k == Least(After(f)) IN
            [S EXCEPT !.stk = Append([@ EXCEPT ![i].idx = k], [F0 EXCEPT !.k = "trig", !.n = k]),
                      !.r = ""]
       ELSE CASE f.k = "sel" -> Deliver(PopS(S), OK)
              [] f.k = "op" /\ f.ph = 1 /\ f.s = "save" /\ f.dead ->
                    \* the node cannot be read any more
                    Deliver(PopS(S), [r |-> "err", e |-> "noop"])
              [] f.k = "op" /\ f.ph = 1 ->
                    LET rec == IF f.s = "save" THEN [id |-> f.tgt[1], v |-> f.tgt[2]]
                                               ELSE [id |-> f.id, v |-> 0]
                    IN Run([S EXCEPT !.stk[i].ph = 2, !.stk[i].idx = 0, !.stk[i].log = Append(@, rec)])
              [] OTHER -> Deliver(Commit(S), OK)

(* the frame above the top of the stack ended with outcome out *)
Deliver(S, out) ==
    LET res == [S EXCEPT !.r = IF out.e = "" THEN out.r ELSE out.r \o ":" \o out.e]
    IN IF S.stk = <<>> THEN res
       ELSE LET f == Last(S.stk) IN
            CASE f.k \in {"op", "sel"} -> IF out.r = "ok" THEN Run(S) ELSE Deliver(PopS(S), out)
              [] OTHER -> IF \/ out.r = "ok" \/ f.c = "all" \/ (f.c = "err" /\ out.r = "err")
                          THEN res
                          ELSE Deliver(PopS(S), out)

-----------------------------------------------------------------------------
View == ViewOf(stk, graph)
Kind == IF stk = <<>> THEN "base" ELSE Last(stk).k

(* where the target of user code on top of the stack lives, 0 if none       *)
TgtAt(s) == IF s = <<>> THEN 0
            ELSE IF Last(s).k = "trig" /\ regs[Last(s).n].n = 0 THEN 0
            ELSE IF s[CtxOf(s)].tgt = <<>> THEN 0 ELSE CtxOf(s)

Tgt(s) == IF TgtAt(s) = 0 \/ s[TgtAt(s)].dead THEN <<>> ELSE s[TgtAt(s)].tgt

(* Where the target lives that the kept handle refers to. Once no context has it any more, the handle
   holds its value. *)
NoKept == [tn |-> 0, v |-> <<>>, dead |-> FALSE]
KeptIn(s) == {i \in 1..Len(s) : kept.tn # 0 /\ s[i].tn = kept.tn}
Kept == IF KeptIn(stk) = {} THEN [kept EXCEPT !.tn = 0]
        ELSE LET f == stk[CHOOSE i \in KeptIn(stk) : TRUE] IN [tn |-> 0, v |-> f.tgt, dead |-> f.dead]
(* after a step that leaves the stack s2, having had the stack s1 before it returned from anything *)
KeptAfter(s1, s2) ==
    IF kept.tn = 0 \/ KeptIn(s2) # {} THEN kept
    ELSE LET f == s1[CHOOSE i \in KeptIn(s1) : TRUE] IN [tn |-> 0, v |-> f.tgt, dead |-> f.dead]
NewTn == 1 + (CHOOSE n \in {0, kept.tn} \cup {stk[i].tn : i \in 1..Len(stk)} :
                 \A m \in {kept.tn} \cup {stk[i].tn : i \in 1..Len(stk)} : m <= n)

Proj == [ t |-> IF stk = <<>> THEN 0 ELSE IF Last(stk).k = "trig" THEN Last(stk).n ELSE 100,
          v |-> View,
          tg |-> Tgt(stk),
          k |-> IF Kept.dead THEN <<>> ELSE Kept.v,
          c |-> cnt ]

Rec(e) == hist' = CASE Mode = "sim"   -> Append(hist, e @@ [x |-> Proj'])
                    [] Mode = "trace" -> <<e @@ [x |-> Proj']>>
                    [] OTHER          -> Append(hist, e)

Odd == [i \in Ids |-> i % 2]
Init == /\ graph \in IF InitAll THEN [Ids -> {0} \cup Vals] ELSE {Odd}
        /\ regs \in Families[RegSet]
        /\ stk = <<>>
        /\ cnt = 0
        /\ kept = NoKept
        /\ hist = <<[a |-> "Init", g |-> graph, regs |-> regs]>>

(* user code on top of the stack calls something, and handles failures of   *)
(* it as c says; the caller of the outermost call handles everything        *)
Calling(c) == IF stk = <<>> THEN stk ELSE [stk EXCEPT ![Len(stk)].c = c]
Start(f, c) == [stk |-> Append(Calling(c), f), g |-> graph, r |-> ""]
Room == Len(stk) < MaxDepth

BecomeFrom(s1, S, e) ==
    /\ stk' = S.stk /\ graph' = S.g
    /\ kept' = KeptAfter(s1, S.stk)
    /\ UNCHANGED <<regs, cnt>>
    /\ Rec(e @@ [r |-> S.r])
Become(S, e) == BecomeFrom(stk, S, e)

BeginTx(c) ==
    /\ Room
    /\ Become(Start([F0 EXCEPT !.k = "tx"], c), [a |-> "Tx", c |-> c])

BeginSave(id, v, c) ==
    /\ Room
    /\ Become(Run(Start([F0 EXCEPT !.k = "op", !.s = "save", !.ph = 1, !.tgt = <<id, v>>, !.tn = NewTn], c)),
              [a |-> "Save", id |-> id, v |-> v, c |-> c])

BeginDel(id, c) ==
    /\ Room
    /\ LET S == [stk |-> Calling(c), g |-> graph, r |-> ""]
       IN Become(IF View[id] = 0
                 THEN Deliver(S, [r |-> "err", e |-> "noop"])
                 ELSE Run(Start([F0 EXCEPT !.k = "op", !.s = "del", !.ph = 1, !.id = id, !.tgt = <<id, View[id]>>, !.tn = NewTn], c)),
                 [a |-> "Del", id |-> id, c |-> c])

Sel(s, c) ==
    /\ Kind = "tx" /\ Room
    /\ Become(Run(Start([F0 EXCEPT !.k = "sel", !.s = s], c)), [a |-> "Sel", s |-> s, c |-> c])

(* plain records through the context *)
CSave(id, v) ==
    /\ Kind = "tx" /\ Len(Last(stk).log) < MaxLog
    /\ Become([stk |-> [stk EXCEPT ![Len(stk)].log = Append(@, [id |-> id, v |-> v])], g |-> graph, r |-> ""],
              [a |-> "CSave", id |-> id, v |-> v])
CDel(id) ==
    /\ Kind = "tx" /\ Len(Last(stk).log) < MaxLog
    /\ Become([stk |-> [stk EXCEPT ![Len(stk)].log = Append(@, [id |-> id, v |-> 0])], g |-> graph, r |-> ""],
              [a |-> "CDel", id |-> id])

(* ctx = ctx.with_target(node) *)
WithTarget(id, v) ==
    /\ Kind = "tx"
    /\ Become([stk |-> [stk EXCEPT ![Len(stk)].tgt = <<id, v>>, ![Len(stk)].tn = NewTn, ![Len(stk)].dead = FALSE], g |-> graph, r |-> ""],
              [a |-> "WithTarget", id |-> id, v |-> v])

(* changes the target through a Target handle *)
SetTgt(id, v) ==
    /\ Kind \in {"tx", "trig"}
    /\ (Kind = "trig" => regs[Last(stk).n].n > 0)
    /\ Become(IF Tgt(stk) = <<>> THEN [stk |-> stk, g |-> graph, r |-> "none"]
              ELSE [stk |-> [stk EXCEPT ![TgtAt(stk)].tgt = <<id, v>>], g |-> graph, r |-> "set"],
              [a |-> "SetTgt", id |-> id, v |-> v])

(* panics while changing the target, and catches that or not *)
Burst(caught, e) ==
    /\ Kind = "trig" /\ Tgt(stk) # <<>>
    /\ LET S == [stk |-> [stk EXCEPT ![TgtAt(stk)].dead = TRUE], g |-> graph, r |-> "caught"]
       IN BecomeFrom(S.stk, IF caught THEN S ELSE Deliver(PopS(S), [r |-> "panic", e |-> ToString(e)]),
                 [a |-> "Burst", caught |-> caught, e |-> e])

(* keeps a handle of the target, and changes the target through it whenever it likes *)
Keep ==
    /\ Kind \in {"tx", "trig"} /\ TgtAt(stk) # 0
    /\ kept' = [NoKept EXCEPT !.tn = stk[TgtAt(stk)].tn]
    /\ UNCHANGED <<regs, graph, stk, cnt>>
    /\ Rec([a |-> "Keep", r |-> ""])

SetKept(id, v) ==
    /\ kept # NoKept
    /\ UNCHANGED <<regs, graph, cnt>>
    /\ IF Kept.dead
       THEN UNCHANGED <<stk, kept>>
       ELSE IF KeptIn(stk) = {} THEN UNCHANGED stk /\ kept' = [kept EXCEPT !.v = <<id, v>>]
       ELSE UNCHANGED kept /\ stk' = [stk EXCEPT ![CHOOSE i \in KeptIn(stk) : TRUE].tgt = <<id, v>>]
    /\ Rec([a |-> "SetKept", id |-> id, v |-> v, r |-> IF Kept.dead THEN "none" ELSE "set"])

Ret(how, e) ==
    /\ Kind \in {"tx", "trig"}
    /\ LET S == [stk |-> stk, g |-> graph, r |-> ""]
       IN Become(IF how = "ok"
                 THEN Deliver(IF Kind = "tx" THEN Commit(S) ELSE PopS(S), OK)
                 ELSE Deliver(PopS(S), IF how = "noop" THEN [r |-> "err", e |-> "noop"]
                                       ELSE [r |-> how, e |-> ToString(e)]),
                 [a |-> "Ret", how |-> how, e |-> e])

(* changes the resource *)
Bump == /\ cnt' = cnt + 1
        /\ UNCHANGED <<regs, graph, stk, kept>>
        /\ Rec([a |-> "Bump", r |-> ""])

On(n) == n \in Acts
Used == {graph[i] : i \in Ids} \cup (IF Kept.v = <<>> THEN {} ELSE {Kept.v[2]})
        \cup UNION {{stk[i].log[k].v : k \in 1..Len(stk[i].log)} : i \in 1..Len(stk)}
        \cup UNION {{stk[i].tgt[2]} : i \in {j \in 1..Len(stk) : stk[j].tgt # <<>>}}
Offer == IF FreshVals
         THEN {v \in Vals : v \notin Used /\ \A w \in Vals \ Used : v <= w}
         ELSE Vals

(* a catch policy matters only where user code can be unwound *)
Pol == IF stk = <<>> THEN {"all"} ELSE Catches

LogsShort == \A i \in 1..Len(stk) : Len(stk[i].log) <= MaxLog

Next ==
    \/ On("Tx") /\ \E c \in Pol : BeginTx(c)
    \/ On("Save") /\ \E id \in Ids, v \in Offer, c \in Pol : BeginSave(id, v, c)
    \/ On("Del") /\ \E id \in Ids, c \in Pol : BeginDel(id, c)
    \/ On("Sel") /\ \E s \in Schedules, c \in Pol : Sel(s, c)
    \/ On("CSave") /\ \E id \in Ids, v \in Offer : CSave(id, v)
    \/ On("CDel") /\ \E id \in Ids : CDel(id)
    \/ On("WithTarget") /\ \E id \in Ids, v \in Offer : WithTarget(id, v)
    \/ On("SetTgt") /\ \E id \in Ids, v \in Offer : SetTgt(id, v)
    \/ On("Keep") /\ (Keep \/ \E id \in Ids, v \in Offer : SetKept(id, v))
    \/ On("Burst") /\ \E b \in BOOLEAN : Burst(b, Len(hist))
    \/ Ret("ok", 0)
    \/ On("Err") /\ Ret("err", Len(hist))
    \/ On("Noop") /\ Ret("noop", 0)
    \/ On("Panic") /\ Ret("panic", Len(hist))
    \/ On("Bump") /\ cnt < 3 /\ Bump

Spec == Init /\ [][Next]_vars

BNext == Len(hist) < MaxLen /\ LogsShort /\ Next
BSpec == Init /\ [][BNext]_vars
Emit == Mode # "test" \/ PrintT("@T" \o ToJson([h |-> hist', x |-> Proj']))
EmitSim == \/ Mode # "sim"
           \/ Len(hist) < MaxLen
           \/ PrintT("@S" \o ToJson(hist))

-----------------------------------------------------------------------------
(* Properties                                                               *)

TypeOK ==
    /\ \A i \in Ids : graph[i] \in 0..NV
    /\ \A i \in 1..Len(stk) :
         /\ stk[i].k \in {"tx", "op", "sel", "trig"}
         /\ stk[i].k = "trig" => i > 1 /\ stk[i-1].k \in {"op", "sel"}
         /\ stk[i].tgt = <<>> <=> stk[i].tn = 0
         /\ \A j \in 1..i-1 : stk[i].tn # 0 => stk[j].tn # stk[i].tn
         /\ stk[i].k = "sel" => i > 1 /\ stk[i-1].k = "tx"
    /\ Kind \in {"base", "tx", "trig"}

Happened(e) == hist' # hist /\ Last(hist').a = e
Result == Last(hist').r
Ended(i) == i \in 1..Len(stk) /\ i > Len(stk')

(* The graph changes only when the outermost call succeeds, and then        *)
(* becomes what the outermost context made of it (C01, C06, C07, C09).      *)
GraphOnlyByOutermostSuccess ==
    [][graph' # graph => stk' = <<>> /\ Result = "ok"]_vars

(* C08, C02: an outermost call that fails leaves no effect on the graph     *)
FailureLeavesNoTrace ==
    [][(hist' # hist /\ stk' = <<>> /\ Result # "ok") => graph' = graph]_vars

(* C06: entering the after phase of a save records the target as it is then *)
SavedAsLeft ==
    [][\A i \in 1..Len(stk) :
         (/\ i <= Len(stk') /\ stk[i].k = "op" /\ stk[i].s = "save" /\ stk[i].ph = 1
          /\ stk'[i].k = "op" /\ stk'[i].ph = 2) =>
            LET l == stk'[i].log IN Last(l) = [id |-> stk[i].tgt[1], v |-> stk[i].tgt[2]]]_vars

(* C06, C07: a kept handle changes nothing but the target it refers to, and that only until it is
   stored or the operation is over *)
KeptChangesTargetOnly ==
    [][(hist' # hist /\ Last(hist').a = "SetKept") =>
         /\ View' = View /\ Len(stk') = Len(stk)
         /\ \A i \in 1..Len(stk) : stk'[i].tgt # stk[i].tgt => stk[i].tn = kept.tn]_vars

(* C06: before-save triggers do not see the node recorded by the operation, *)
(* after-save triggers do unless later nested work changed it               *)
BeforeAfter ==
    \A i \in 1..Len(stk) : stk[i].k = "op" =>
        /\ stk[i].ph = 1 => stk[i].idx > 0 /\ regs[stk[i].idx].s \in {"BS", "BD"}
        /\ stk[i].ph = 2 => /\ stk[i].idx > 0 /\ regs[stk[i].idx].s \in {"AS", "AD"}
                            /\ Len(stk[i].log) > 0

(* C07: a delete operation records exactly the deletion of its id, whatever *)
(* its target became                                                        *)
DeletesItsId ==
    [][\A i \in 1..Len(stk) :
         (/\ i <= Len(stk') /\ stk[i].k = "op" /\ stk[i].s = "del" /\ stk[i].ph = 1
          /\ stk'[i].k = "op" /\ stk'[i].ph = 2) => Last(stk'[i].log) = [id |-> stk[i].id, v |-> 0]]_vars

(* C07: deleting what does not exist is an error without effect             *)
NoopDelete ==
    [][(Happened("Del") /\ View[Last(hist').id] = 0) =>
         /\ graph' = graph
         /\ Len(stk') <= Len(stk)
         /\ \A i \in 1..Len(stk') : stk'[i].log = stk[i].log /\ stk'[i].tgt = stk[i].tgt
         /\ Result = "err:noop"]_vars

(* C08: the triggers of one execution of a schedule run in registration     *)
(* order, without gaps, and belong to it                                    *)
TriggersInOrder ==
    [][\A i \in 2..Len(stk') :
         stk'[i].k = "trig" =>
            /\ regs[stk'[i].n].s = SchedOf(stk'[i-1])
            /\ stk'[i-1].idx = stk'[i].n
            /\ LET same == /\ i <= Len(stk) /\ stk[i].k = "trig" /\ stk'[i-1].ph = stk[i-1].ph
                           /\ stk'[i-1].k = stk[i-1].k /\ Len(stk') = i
                           /\ ~(Happened("Save") \/ Happened("Del") \/ Happened("Sel"))
                   from == IF same THEN stk[i].n ELSE 0
               IN \/ i <= Len(stk) /\ stk[i].k = "trig" /\ stk[i].n = stk'[i].n
                  \/ /\ stk'[i].n > from
                     /\ \A k \in from+1..stk'[i].n-1 : regs[k].s # regs[stk'[i].n].s]_vars

(* C08: a trigger that fails fails the execution of its schedule: control   *)
(* never goes to another trigger of it                                      *)
FailureStops ==
    [][(Happened("Ret") /\ Kind = "trig" /\ Last(hist').how # "ok") => Len(stk') < Len(stk) - 1]_vars

(* C09: unsuccessful nested work leaves the enclosing contexts as they were *)
NestedFailure ==
    [][(hist' # hist /\ Len(stk') < Len(stk) /\ Result # "ok" /\ Result # "") =>
         \A i \in 1..Len(stk') : stk'[i].log = stk[i].log]_vars

(* C09: successful nested work makes the enclosing context see what it saw  *)
NestedSuccess ==
    [][(Happened("Ret") /\ Kind = "tx" /\ Last(hist').how = "ok") => View' = View]_vars

(* C09: logs of enclosing contexts change only by appending *)
AppendOnly ==
    [][\A i \in 1..Len(stk) : (i <= Len(stk') /\ stk'[i].k = stk[i].k /\ stk'[i].k \in {"tx", "op"} /\ Result # "" /\ Len(stk') < Len(stk)) =>
          /\ Len(stk'[i].log) >= Len(stk[i].log)
          /\ SubSeq(stk'[i].log, 1, Len(stk[i].log)) = stk[i].log]_vars

(* C10: the resource changes only when somebody changes it                  *)
ResourceKept == [][cnt' # cnt => Happened("Bump")]_vars
=============================================================================
