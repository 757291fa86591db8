------------------------------ MODULE DividendTrace ----------------------------
EXTENDS Dividend, Json, IOUtils
INSTANCE Big
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<dvars, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
ToSet(s) == {s[i] : i \in DOMAIN s}
Bag(s) == [x \in ToSet(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
\* [[company, rank, amount], ...] as [company -> the <<rank, amount>> it issued to the holder]
Hold(s) == [c \in {s[i][1] : i \in DOMAIN s} |-> {<<s[i][2], s[i][3]>> : i \in {j \in DOMAIN s : s[j][1] = c}}]
TraceInit == Init0(<<>>, {}) /\ l = 1
TNew == /\ Is("new") /\ reg' = [c \in DOMAIN E.reg |-> ToSet(E.reg[c])] /\ done' = [c \in DOMAIN E.reg |-> -1] /\ post' = {}
        /\ pend' = [h \in DOMAIN E.agents |-> {}] /\ slips' = [c \in DOMAIN E.reg |-> <<>>]
TCompany == /\ Is("cact") /\ CompanyActs(E.a, E.lo, E.hi, E.pol) /\ GoodReturn(E.lo, E.hi, E.pol, E.ret)
            /\ Len(E.sent) = Cardinality(ToSet(E.sent))
            /\ ToSet(E.sent) = {[to |-> m.to, pol |-> m.pol, at |-> E.lo] : m \in Told(E.a, E.lo, E.pol)}
TReceive == /\ Is("crec") /\ CompanyReceives(E.a, Bag([i \in DOMAIN E.recs |-> [from |-> E.recs[i].from, shares |-> ToSet(E.recs[i].shares)]]))
THolder == /\ Is("hact")
           /\ Len(E.got) = Cardinality(ToSet(E.got))
           /\ LET got == {[to |-> E.a, c |-> E.got[i].c, pol |-> E.got[i].pol] : i \in DOMAIN E.got}
                  hold == Hold(E.hold)
                  owed == Owed(E.a, E.lo, E.hi, got, hold) IN
              /\ HolderActs(E.a, E.lo, E.hi, got, hold)
              /\ Len(E.sent) = Cardinality(owed)
              /\ \A d \in owed : Cardinality({i \in DOMAIN E.sent : E.sent[i].c = d[2]}) = Cardinality({x \in owed : x[2] = d[2]})
              /\ \A i \in DOMAIN E.sent : ToSet(E.sent[i].shares) = hold[E.sent[i].c]
\* at the end of the simulation everything has arrived
TFin == Is("fin") /\ post = {} /\ (\A c \in DOMAIN slips : slips[c] = <<>>) /\ UNCHANGED dvars
\* the profit of a company with shares of the given classes is divided among those that are eligible, rounded down
RECURSIVE Eligible(_)
Eligible(s) == IF s = <<>> THEN <<>> ELSE (IF s[1].div THEN <<s[1]>> ELSE <<>>) \o Eligible(Tail(s))
TShare == /\ Is("dps") /\ UNCHANGED dvars
          /\ LET tot == Sum([i \in DOMAIN E.classes |-> E.classes[i].n]) el == Eligible(E.classes) IN
             /\ E.currency /\ E.shares = tot
             /\ IF E.profit[1] <= 0 \/ tot = Zero THEN E.res = <<>> /\ E.total = Zero
                ELSE /\ Len(E.res) = Len(el)
                     /\ \A i \in DOMAIN el : E.res[i].rank = el[i].rank /\ E.res[i].n = el[i].n /\ IsQuotient(E.profit, tot, E.res[i].per)
                     /\ E.total = Sum([i \in DOMAIN el |-> Mul(el[i].n, E.res[i].per)])
                     /\ Leq(E.total, E.profit)
                     /\ (Len(el) = Len(E.classes) => Less(Sub(E.profit, E.total), tot))
TraceNext == TNew \/ TCompany \/ TReceive \/ THolder \/ TFin \/ TShare
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
