---------------------------- MODULE TransfersTrace ----------------------------
EXTENDS Transfers, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<xvars, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Set(s) == {s[k] : k \in 1..Len(s)}
TraceInit == Init0(<<>>, <<>>) /\ l = 1
\* E.inv[o]: amount of every property, E.view[o]: amount of every property in its view, -1 where it has no such view
TNew == /\ Is("new") /\ inv' = E.inv /\ minted' = E.inv /\ flight' = <<>>
        /\ views' = [o \in 1..Len(E.inv) |-> {p \in 1..Len(E.inv[o]) : E.view[o][p] >= 0}]
        /\ \A o \in 1..Len(E.inv) : \A p \in views'[o] : E.view[o][p] = E.inv[o][p]
Shows == /\ E.inv = inv'
         /\ \A o \in DOMAIN inv' : \A p \in DOMAIN inv'[o] : E.view[o][p] = IF p \in views'[o] THEN inv'[o][p] ELSE -1
Items == [p \in Set(E.ps) |-> E.qs[CHOOSE k \in 1..Len(E.ps) : E.ps[k] = p]]
\* the interval is [0, 10), and a transfer is no reason to be activated again within it
Settled == E.next = 10
TTake == Is("take") /\ E.ok /\ Take(E.o, E.p, E.q) /\ Shows
TSend == Is("send") /\ E.ok /\ Withdraw(E.t, E.from, E.to, Items) /\ Settled /\ Shows
TRefuse == Is("send") /\ ~E.ok /\ Refuse(E.from, E.to, Items) /\ Shows
TSelf == Is("send") /\ E.ok /\ E.from = E.to /\ ToOneself /\ Settled /\ Shows
TDeliver == Is("deliver") /\ E.ok /\ Deliver(E.t) /\ Settled /\ Shows
TThird == Is("third") /\ E.ok /\ Bystander /\ Settled /\ Shows
TraceNext == TNew \/ TTake \/ TSend \/ TRefuse \/ TSelf \/ TDeliver \/ TThird
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
===============================================================================
