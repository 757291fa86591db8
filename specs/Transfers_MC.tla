----------------------------- MODULE Transfers_MC -----------------------------
EXTENDS Transfers, Json
CONSTANTS MaxOps, MaxQ, Emit
VARIABLES hist
mcvars == <<xvars, hist>>
view == xvars
\* owners: 1 views fungible property 1, 2 views 1 and infungible 2, 3 views nothing
MCInit == /\ Init0([o \in 1..3 |-> [p \in 1..2 |-> IF o = 2 THEN (IF p = 1 THEN 2 ELSE 1) ELSE 0]], [o \in 1..3 |-> IF o = 1 THEN {1} ELSE IF o = 2 THEN {1, 2} ELSE {}])
          /\ hist = <<>>
Items == {f \in [1..2 -> 0..MaxQ] : f[2] \in {0, 1}} \ {[p \in 1..2 |-> 0]}
Used == {hist[k][2] : k \in {j \in 1..Len(hist) : hist[j][1] = 1}}
MCTake == \E o \in {1, 2}, q \in 0..1 : Take(o, 1, q) /\ hist' = Append(hist, <<0, o, q>>)
MCSend == \E from, to \in 1..3, i \in Items :
            LET t == Len(hist) + 1 IN
            /\ hist' = Append(hist, <<1, t, from, to, i[1], i[2]>>)
            /\ IF from = to THEN ToOneself ELSE IF Enough(from, i) THEN Withdraw(t, from, to, i) ELSE Refuse(from, to, i)
MCDeliver == \E t \in DOMAIN flight : Deliver(t) /\ hist' = Append(hist, <<2, t, flight[t].to>>)
MCThird == \E t \in DOMAIN flight, o \in 1..3 : o \notin {flight[t].from, flight[t].to} /\ Bystander /\ hist' = Append(hist, <<3, t, o>>)
MCNext == Len(hist) < MaxOps /\ (MCTake \/ MCSend \/ MCDeliver \/ MCThird)
MCSpec == MCInit /\ [][MCNext]_mcvars
EmitTests == Emit => PrintT(<<"TEST", ToJson(hist')>>)
===============================================================================
