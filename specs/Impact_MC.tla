------------------------------- MODULE Impact_MC -------------------------------
EXTENDS Impact, TLC, Json, FiniteSetsExt
CONSTANTS Traded, Others, People, Qs, Rounds, Emit
VARIABLES now, sent, calls, hist, got
mcvars == <<ivars, now, sent, calls, hist, got>>
Props == Traded \cup Others
MCInit == /\ prices = [p \in Traded |-> <<100 * p, p>>] /\ members = People /\ phase = "sending"
          /\ now = 2 /\ sent = {} /\ calls = {} /\ hist = <<>> /\ got = <<>>
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AsSeq(S \ {x})
Lines == {[side |-> s, q |-> q] : s \in {"buy", "sell"}, q \in Qs}
Vols == UNION {{AsSeq({[p |-> p, side |-> f[p].side, q |-> f[p].q] : p \in D}) : f \in [D -> Lines]} : D \in SUBSET Props}
\* every participant answers at most once per round
Books == UNION {{AsSeq({[from |-> m, sent |-> now, vols |-> f[m]] : m \in D}) : f \in [D -> Vols]} : D \in SUBSET People}
Step == /\ Len(hist) < Rounds
        /\ \E os \in (IF phase = "sending" THEN {<<>>} ELSE Books) :
             /\ calls' = Calls(os, now) /\ sent' = Sends(now) /\ Act
             /\ got' = IF Cleared(os, now) THEN Volumes(os) ELSE <<>>
             /\ hist' = Append(hist, os)
             /\ \E nx \in Nexts(os, now, now + 1) : now' = nx + (IF phase = "sending" THEN 1 ELSE 0)
MCSpec == MCInit /\ [][Step]_mcvars
view == <<ivars, now, sent, calls, got, Len(hist)>>
\* everyone is quoted everything, once
AllQuoted == sent # {} => /\ {s.to : s \in sent} = People /\ Cardinality(sent) = Cardinality(People)
                          /\ \A s \in sent : {q[1] : q \in s.quotes} = Traded
\* only traded instruments have volumes; the total is that of the orders
Last == hist[Len(hist)]
OnlyTraded == hist # <<>> => DOMAIN got \subseteq Traded
Total(os) == Sum([i \in 1..Len(os) |-> Sum([k \in 1..Len(os[i].vols) |-> IF os[i].vols[k].p \notin Traded THEN 0 ELSE
                 IF os[i].vols[k].side = "buy" THEN os[i].vols[k].q ELSE -os[i].vols[k].q], Len(os[i].vols))], Len(os))
Complete == (hist # <<>> /\ got # <<>>) => MapThenSumSet(LAMBDA p : got[p], DOMAIN got) = Total(Last)
Waits == (Len(hist) > 1 /\ Last = <<>>) => calls = {}
EmitTests == (Emit /\ Len(hist') = Rounds) => PrintT(<<"TEST", ToJson(hist')>>)
================================================================================
