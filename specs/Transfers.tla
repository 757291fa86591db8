------------------------------- MODULE Transfers -------------------------------
(* Property changes hands by transfer messages: the transferor's copy withdraws, the transferee's copy deposits.  Between
   the two the property is in flight.  An owner's per-type views are the projection of its inventory.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Props
VARIABLES inv, views, flight, minted
xvars == <<inv, views, flight, minted>>
G(p, c) == p \in Props => c
\* inv: [owner -> [property -> amount]]; views: [owner -> properties its views show]
\* flight: [transfer -> [from, to, items]] withdrawn and not yet delivered; items: [property -> amount]
Init0(i, v) == inv = i /\ views = v /\ flight = <<>> /\ minted = [o \in DOMAIN i |-> i[o]]
At(f, p) == IF p \in DOMAIN f THEN f[p] ELSE 0
Add(f, g) == [p \in DOMAIN f |-> f[p] + At(g, p)]
Sub(f, g) == [p \in DOMAIN f |-> f[p] - At(g, p)]
Enough(o, items) == \A p \in DOMAIN items : inv[o][p] >= items[p]
View(i, o) == [p \in views[o] |-> i[o][p]]
Take(o, p, q) == /\ inv' = [inv EXCEPT ![o][p] = @ + q] /\ minted' = [minted EXCEPT ![o][p] = @ + q] /\ UNCHANGED <<views, flight>>
Withdraw(t, from, to, items) ==
  /\ from # to /\ t \notin DOMAIN flight /\ Enough(from, items)
  /\ inv' = [inv EXCEPT ![from] = Sub(@, items)]
  /\ flight' = (t :> [from |-> from, to |-> to, items |-> items]) @@ flight
  /\ UNCHANGED <<views, minted>>
Refuse(from, to, items) == from # to /\ ~Enough(from, items) /\ UNCHANGED xvars
Deliver(t) == /\ t \in DOMAIN flight
              /\ inv' = [inv EXCEPT ![flight[t].to] = Add(@, flight[t].items)]
              /\ flight' = [x \in DOMAIN flight \ {t} |-> flight[x]]
              /\ UNCHANGED <<views, minted>>
ToOneself == UNCHANGED xvars
Bystander == UNCHANGED xvars
RECURSIVE Total(_, _)
Total(f(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f(x) + Total(f, S \ {x})
Holdings(p) == Total(LAMBDA o : inv[o][p], DOMAIN inv) + Total(LAMBDA t : At(flight[t].items, p), DOMAIN flight)
Created(p) == Total(LAMBDA o : minted[o][p], DOMAIN minted)
Conserved == \A o \in DOMAIN inv : \A p \in DOMAIN inv[o] : Holdings(p) = Created(p)
NonNegative == \A o \in DOMAIN inv : \A p \in DOMAIN inv[o] : inv[o][p] >= 0
================================================================================
