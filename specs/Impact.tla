--------------------------------- MODULE Impact --------------------------------
(* An impact-function market: it quotes its prices to every participant, collects their orders and evaluates the impact of the net
   volume of each instrument it trades.
   order: [from |-> , sent |-> , vols |-> sequence of [p |-> , side |-> "buy" or "sell", q |-> ]], every p at most once *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES prices,     \* traded instrument -> <<price, lot>>
          members,    \* participants
          phase       \* "sending" before the first quotes, then "clearing"
ivars == <<prices, members, phase>>
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sum(s, k - 1)
Signed(o, p) == Sum([k \in 1..Len(o.vols) |-> IF o.vols[k].p # p THEN 0 ELSE IF o.vols[k].side = "buy" THEN o.vols[k].q ELSE -o.vols[k].q], Len(o.vols))
Named(os) == UNION {{os[i].vols[k].p : k \in 1..Len(os[i].vols)} : i \in 1..Len(os)}
Net(os, p) == Sum([i \in 1..Len(os) |-> Signed(os[i], p)], Len(os))
\* instruments whose impact is evaluated
Evaluated(os) == Named(os) \cap DOMAIN prices
Fresh(os, lo) == SelectSeq(os, LAMBDA o : o.sent >= lo)
\* with the impact function f(v) = k v the impact of an instrument is (unit price + k net) / unit price
Volumes(os) == [p \in Evaluated(os) |-> Net(os, p)]
Quotes == {<<p, prices[p][1], prices[p][2]>> : p \in DOMAIN prices}
Cleared(os, lo) == phase = "clearing" /\ Fresh(os, lo) # <<>>
\* the volumes for which the impact function is evaluated when the market acts
Calls(os, lo) == IF Cleared(os, lo) THEN {Net(Fresh(os, lo), p) : p \in Evaluated(Fresh(os, lo))} ELSE {}
\* when the market wants to act again; having found no orders it waits for them in the same step (the first time steps excepted)
Nexts(os, lo, hi) == IF phase = "sending" THEN {lo} ELSE IF Cleared(os, lo) THEN {hi} ELSE IF lo > 1 THEN {lo} ELSE {lo, hi}
\* all participants get all quotes, for the next time point
Sends(lo) == {[to |-> m, at |-> lo + 1, quotes |-> Quotes] : m \in members}
Act == phase' = "clearing" /\ UNCHANGED <<prices, members>>
================================================================================
