------------------------------ MODULE ImpactTrace ------------------------------
EXTENDS Impact, TLC, Json, IOUtils
VARIABLES l, due      \* quotes in flight: <<participant, time>> -> number; empty when the market is driven without a simulation
Trace == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<ivars, l, due>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Set(s) == {s[k] : k \in 1..Len(s)}
TraceInit == prices = <<>> /\ members = {} /\ phase = "sending" /\ l = 1 /\ due = <<>>
At(x) == IF x \in DOMAIN due THEN due[x] ELSE 0
TNew == /\ Is("new") /\ due' = (<<0, IF E.sim THEN 1 ELSE 0>> :> 1) /\ phase' = "sending" /\ members' = Set(E.members)
        /\ prices' = [p \in {E.traded[k][1] : k \in 1..Len(E.traded)} |-> LET k == CHOOSE j \in 1..Len(E.traded) : E.traded[j][1] = p IN <<E.traded[k][2], E.traded[k][3]>>]
QuotesOf(s) == {<<s[k][1], s[k][2], s[k][3]>> : k \in 1..Len(s)}
\* E.out: messages sent; E.calls: arguments of the impact function; E.cleared: times of the clearing prices put to the output
TAct == /\ Is("act")
        /\ Set(E.calls) = Calls(E.orders, E.lo)
        /\ E.next \in Nexts(E.orders, E.lo, E.hi)
        /\ Len(E.out) = Cardinality(members)
        /\ {[to |-> E.out[k].to, at |-> E.out[k].at, quotes |-> QuotesOf(E.out[k].quotes)] : k \in 1..Len(E.out)} = Sends(E.lo)
        /\ \A k \in 1..Len(E.out) : Len(E.out[k].quotes) = Cardinality(DOMAIN prices) /\ E.out[k].typed
        /\ E.cleared = IF Cleared(E.orders, E.lo) THEN <<E.lo>> ELSE <<>>
        /\ due' = IF <<0, 1>> \notin DOMAIN due THEN due
                  ELSE [x \in (DOMAIN due) \cup {<<m, E.lo + 1>> : m \in members} |-> At(x) + (IF x[1] \in members /\ x[2] = E.lo + 1 THEN 1 ELSE 0)]
        /\ Act
\* the impacts returned by clearing: the net volume is recovered from (unit price + k net) / unit price
TClear == /\ Is("clear") /\ E.exact /\ UNCHANGED <<ivars, due>>
          /\ {E.r[k][1] : k \in 1..Len(E.r)} = Evaluated(E.orders) /\ Len(E.r) = Cardinality(Evaluated(E.orders))
          /\ \A k \in 1..Len(E.r) : E.r[k][2] = Net(E.orders, E.r[k][1])
\* the quotes the market holds
THeld == Is("held") /\ QuotesOf(E.quotes) = Quotes /\ Len(E.quotes) = Cardinality(DOMAIN prices) /\ UNCHANGED <<ivars, due>>
\* a participant in a running simulation receives quotes of all traded instruments
TRecv == /\ Is("recv") /\ E.who \in members /\ QuotesOf(E.quotes) = Quotes /\ Len(E.quotes) = Cardinality(DOMAIN prices)
         /\ At(<<E.who, E.at>>) > 0 /\ due' = [due EXCEPT ![<<E.who, E.at>>] = @ - 1] /\ UNCHANGED ivars
\* nothing due before the end of the simulation is left
TFin == Is("fin") /\ (\A x \in DOMAIN due : (x[1] # 0 /\ x[2] < E.end) => due[x] = 0) /\ UNCHANGED <<ivars, due>>
TraceNext == TNew \/ TAct \/ TClear \/ THeld \/ TRecv \/ TFin
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
