------------------------------ MODULE WalrasTrace ------------------------------
EXTENDS Walras, TLC, Json, IOUtils
VARIABLES l, known, hold     \* hold: participant -> [own |-> property -> units, short |-> property -> contracts, cash |-> ]: expected inventories in a simulation
Trace == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<wvars, l, hold, known>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Set(s) == {s[k] : k \in 1..Len(s)}
TraceInit == quotes = <<>> /\ members = {} /\ quoted = -1 /\ l = 1 /\ hold = <<>> /\ known = <<>>
\* a sequence of <<property, ...>> as a function
ByProp(s) == [p \in {s[k][1] : k \in 1..Len(s)} |-> LET k == CHOOSE j \in 1..Len(s) : s[j][1] = p IN s[k]]
Hold0(h) == [own |-> [p \in DOMAIN quotes' |-> 0], short |-> [p \in DOMAIN quotes' |-> 0], cash |-> 0]
Held(s) == [own |-> [p \in DOMAIN quotes' |-> IF \E k \in 1..Len(s.own) : s.own[k][1] = p THEN ByProp(s.own)[p][2] ELSE 0],
            short |-> [p \in DOMAIN quotes' |-> IF \E k \in 1..Len(s.own) : s.own[k][1] = p THEN ByProp(s.own)[p][3] ELSE 0], cash |-> s.cash]
TNew == /\ Is("new") /\ known' = <<>> /\ members' = Set(E.members) /\ quoted' = -1
        /\ quotes' = [p \in {E.traded[k][1] : k \in 1..Len(E.traded)} |-> <<ByProp(E.traded)[p][2], ByProp(E.traded)[p][3]>>]
        /\ hold' = [m \in {E.hold[k].who : k \in 1..Len(E.hold)} |-> Held(E.hold[CHOOSE k \in 1..Len(E.hold) : E.hold[k].who = m])]
\* items given to (sign 1) or taken from (sign -1) participant m by the transfers of the event
Flow(m, kind, p) == Sum([k \in 1..Len(E.transfers) |-> LET t == E.transfers[k] IN
                        IF t.who # m THEN 0 ELSE t.sign * Sum([j \in 1..Len(t.items) |-> IF t.items[j][1] = kind /\ t.items[j][2] = p THEN t.items[j][3] ELSE 0], Len(t.items))], Len(E.transfers))
Parties == {E.transfers[k].who : k \in 1..Len(E.transfers)}
Traded(m, p) == Flow(m, "own", p) - Flow(m, "short", p)
New == ByProp(E.quotes)
\* what the participants get and give is their demand, rounded so that it balances, and nothing else
Settled(os) ==
    /\ Parties \subseteq {os[k].from : k \in 1..Len(os)}
    /\ \A p \in DOMAIN quotes :
         LET ls == LinesOf(os, p)
             s == Slack(ls)
         IN /\ Sum([k \in 1..Len(ls) |-> Traded(ls[k].from, p)], Len(ls)) = 0
            /\ \A k \in 1..Len(ls) : LET v == Traded(ls[k].from, p) IN
                 /\ Abs(v - Whole(ls[k].x.u)) <= s
                 /\ <<Flow(ls[k].from, "own", p), Flow(ls[k].from, "short", p)>> = Settle(v, ls[k].x.long, ls[k].x.short)
            /\ \A m \in Parties : (\A k \in 1..Len(ls) : ls[k].from # m) => (Flow(m, "own", p) = 0 /\ Flow(m, "short", p) = 0)
    \* payments
    /\ \A i \in 1..Len(os) :
         LET m == os[i].from
             ls == SelectSeq(os[i].lines, LAMBDA x : x.p \in DOMAIN quotes)
             lows == [k \in 1..Len(ls) |-> LET S == Pays(Traded(m, ls[k].p), ls[k].long, ls[k].short, quotes[ls[k].p][1], New[ls[k].p][2], quotes[ls[k].p][2]) IN
                          (CHOOSE x \in S : \A y \in S : x <= y) - Legs(Traded(m, ls[k].p), 0, 0)]
             highs == [k \in 1..Len(ls) |-> LET S == Pays(Traded(m, ls[k].p), ls[k].long, ls[k].short, quotes[ls[k].p][1], New[ls[k].p][2], quotes[ls[k].p][2]) IN
                          (CHOOSE x \in S : \A y \in S : x >= y) + Legs(Traded(m, ls[k].p), 0, 0)]
         IN -Flow(m, "cash", 0) >= Sum(lows, Len(ls)) /\ -Flow(m, "cash", 0) <= Sum(highs, Len(ls))
    \* netted: nothing goes both ways
    /\ \A m \in Parties : \A x \in UNION {{<<E.transfers[k].items[j][1], E.transfers[k].items[j][2]>> : j \in 1..Len(E.transfers[k].items)} : k \in {n \in 1..Len(E.transfers) : E.transfers[n].who = m}} :
         Cardinality({E.transfers[k].sign : k \in {n \in 1..Len(E.transfers) : E.transfers[n].who = m /\ \E j \in 1..Len(E.transfers[n].items) :
              E.transfers[n].items[j][1] = x[1] /\ E.transfers[n].items[j][2] = x[2] /\ E.transfers[n].items[j][3] > 0}}) <= 1
Priced(os) ==
    \A p \in DOMAIN quotes :
       LET ls == LinesOf(os, p) IN
       /\ InBreaker(quotes[p][1], ByProp(E.raw)[p][2]) /\ FromMultiplier(quotes[p][1], ByProp(E.raw)[p][2], New[p][2])
       /\ Affine(os) => New[p][2] \in NewValues(os, p)
       \* a property nobody demands keeps its price
       /\ ls = <<>> => New[p][2] \in {quotes[p][1], quotes[p][1] - 1}
       \* E.res: aggregate excess demand at the new prices, in hundredths of cents, when no multiplier is at the circuit breaker and prices exist that clear
       /\ E.solvable => Abs(ByProp(E.res)[p][2]) <= 10 * 100
Moved2(h) == [m \in DOMAIN h |-> [own |-> [p \in DOMAIN h[m].own |-> h[m].own[p] + Flow(m, "own", p)],
                                  short |-> [p \in DOMAIN h[m].short |-> h[m].short[p] + Flow(m, "short", p)], cash |-> h[m].cash + Flow(m, "cash", 0)]]
TAct == /\ Is("act")
        /\ LET os == Fresh(E.orders, E.lo)
               clear == os # <<>>
           IN /\ {E.quotes[k][1] : k \in 1..Len(E.quotes)} = DOMAIN quotes /\ Len(E.quotes) = Cardinality(DOMAIN quotes)
              /\ \A p \in DOMAIN quotes : New[p][3] = quotes[p][2]
              /\ IF clear THEN Priced(os) /\ Settled(os) ELSE E.transfers = <<>> /\ \A p \in DOMAIN quotes : New[p][2] = quotes[p][1]
              /\ \A k \in 1..Len(E.transfers) : E.transfers[k].ok /\ E.transfers[k].at = E.lo
              /\ E.next = NextAct(E.orders, E.lo)
              \* the prices reported are the new ones, in the order in which the market trades
              /\ E.cleared = IF clear THEN <<<<E.lo, [k \in 1..Len(E.quotes) |-> E.quotes[k][2]]>>>> ELSE <<>>
              /\ IF Quotes(E.orders, E.lo)
                 THEN /\ Len(E.out) = Cardinality(members) /\ {E.out[k].to : k \in 1..Len(E.out)} = members
                      /\ \A k \in 1..Len(E.out) : /\ E.out[k].at = QuoteTime(E.orders, E.lo) /\ E.out[k].typed
                                                  /\ Set(E.out[k].quotes) = Set(E.quotes) /\ Len(E.out[k].quotes) = Len(E.quotes)
                 ELSE E.out = <<>>
              /\ quoted' = IF Quotes(E.orders, E.lo) THEN QuoteTime(E.orders, E.lo) ELSE quoted
              /\ quotes' = [p \in DOMAIN quotes |-> <<New[p][2], New[p][3]>>]
              /\ hold' = Moved2(hold)
        /\ UNCHANGED <<members, known>>
\* a participant in a simulation knows the quotes it received last
TKnow == Is("know") /\ E.who \in members /\ E.prices = E.quotes /\ UNCHANGED <<wvars, hold, known>>
\* a shareholder or bondholder told quotes keeps the latest price and currency of every property
TTold == /\ Is("told") /\ known' = [p \in DOMAIN known \cup {E.quotes[k][1] : k \in 1..Len(E.quotes)} |->
                                       IF \E k \in 1..Len(E.quotes) : E.quotes[k][1] = p THEN <<ByProp(E.quotes)[p][2], ByProp(E.quotes)[p][3]>> ELSE known[p]]
         /\ \A ps \in {E.prices, E.bonds} :
              /\ {ps[k][1] : k \in 1..Len(ps)} = DOMAIN known' /\ Len(ps) = Cardinality(DOMAIN known')
              /\ \A k \in 1..Len(ps) : known'[ps[k][1]] = <<ps[k][2], ps[k][3]>>
         /\ UNCHANGED <<wvars, hold>>
\* inventories after a step of a simulation
THave == /\ Is("have") /\ E.who \in DOMAIN hold /\ UNCHANGED <<wvars, hold, known>>
         /\ E.cash = hold[E.who].cash
         /\ \A p \in DOMAIN quotes : LET has == \E k \in 1..Len(E.own) : E.own[k][1] = p IN
              /\ hold[E.who].own[p] = IF has THEN ByProp(E.own)[p][2] ELSE 0
              /\ hold[E.who].short[p] = IF has THEN ByProp(E.own)[p][3] ELSE 0
\* each clearing reported to the participants: everything ends
TFin == Is("fin") /\ UNCHANGED <<wvars, hold, known>>
TraceNext == TNew \/ TAct \/ TKnow \/ TTold \/ THave \/ TFin
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
