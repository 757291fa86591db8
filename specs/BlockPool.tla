------------------------------- MODULE BlockPool -------------------------------
(* A fixed-capacity pool that hands out strictly increasing indices. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cap, store, highest
pvars == <<cap, store, highest>>
Init0(c) == cap = c /\ store = <<>> /\ highest = -1

\* element v stored under a fresh index, larger than every index issued before
Emplace(v, id) ==
  /\ Cardinality(DOMAIN store) < cap
  /\ id > highest
  /\ store' = (id :> v) @@ store
  /\ highest' = id
  /\ UNCHANGED cap
EmplaceFull == Cardinality(DOMAIN store) = cap /\ UNCHANGED pvars       \* length error, no effect
Erase(id) == id \in DOMAIN store /\ store' = [i \in DOMAIN store \ {id} |-> store[i]] /\ UNCHANGED <<cap, highest>>
EraseVacant(id) == id \notin DOMAIN store /\ UNCHANGED pvars            \* reports zero, no effect

Bounded == Cardinality(DOMAIN store) <= cap
NeverReissued == \A i \in DOMAIN store : i <= highest
=============================================================================
