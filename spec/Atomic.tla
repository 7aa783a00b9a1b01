------------------------------- MODULE Atomic -------------------------------
(***************************************************************************)
(* What threads may observe of a schema they share (plotline/src/schema/    *)
(* transaction.rs, guard.rs, mod.rs): every successful transaction or       *)
(* direct write is one step, every other transaction is none, and whoever   *)
(* reads sees the outcome of exactly the updates so far.                    *)
(*                                                                          *)
(* The graph is divided into groups of ids that are always changed          *)
(* together: a group holds the number of the update that saved it last, 0   *)
(* if it is absent. Concurrency.tla refines this specification.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT NG          \* number of groups
Groups == 1..NG

VARIABLES n,         \* number of updates so far
          g          \* what each group holds

avars == <<n, g>>

(* what an update may do to a group *)
Effects == {"save", "del", "keep"}
Value(e, old, v) == CASE e = "save" -> v [] e = "del" -> 0 [] OTHER -> old
Apply(eff, old, v) == [i \in Groups |-> Value(eff[i], old[i], v)]

AInit == n = 0 /\ g = [i \in Groups |-> 0]

Update(eff) == n' = n + 1 /\ g' = Apply(eff, g, n + 1)

ANext == \E eff \in [Groups -> Effects] : Update(eff)
ASpec == AInit /\ [][ANext]_avars
=============================================================================
