------------------------------- MODULE CodesTrace ------------------------------
EXTENDS Codes, CodeTables, Json, IOUtils, FiniteSets
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
TraceInit == l = 1 /\ known = {}
TNew == Is("new") /\ known' = {}
\* a code built from a text, or refused
TCode == /\ Is("code") /\ E.ok = Accepted(E.k, E.s, E.den)
         /\ IF E.ok THEN /\ E.out = E.s
                         /\ (E.k = "4217" => E.fmt = Formatted(E.s, E.q, E.den) /\ E.cashsame /\ E.copysame)
                         /\ Learn([k |-> E.k, s |-> E.s, h |-> E.h, id |-> E.id])
            ELSE known' = known
TCompare == /\ Is("cmp") /\ \A op \in DOMAIN E.r : E.r[op] = Order(op, E.x, E.y)
            /\ UNCHANGED known
\* the tables
TCurrency == /\ Is("currency") /\ E.name \in DOMAIN CurrencyName
             /\ E.code = E.name /\ E.den = Subunits(E.name) /\ E.text = CurrencyName[E.name] /\ E.other = E.text
             /\ E.money = E.name \o " money" /\ E.cash = E.name \o " cash"
             /\ Learn([k |-> "4217", s |-> E.s, h |-> E.h, id |-> E.id])
TCountry == /\ Is("country") /\ E.name \in DOMAIN CountryName
            /\ E.code = E.name /\ E.text = CountryName[E.name]
            /\ Learn([k |-> "3166", s |-> E.s, h |-> E.h, id |-> ""])
TJurisdiction == /\ Is("jurisdiction") /\ E.name \in DOMAIN Tender
                 /\ E.sovereign = E.name /\ E.tender = Tender[E.name] /\ E.den = Subunits(Tender[E.name])
                 /\ E.h = E.sh
                 /\ UNCHANGED known
\* the whole table was visited
TTable == Is("table") /\ E.n = Cardinality(CASE E.k = "currencies" -> DOMAIN CurrencyName [] E.k = "countries" -> DOMAIN CountryName [] OTHER -> DOMAIN Tender) /\ UNCHANGED known
\* the name of a code without an entry is the code itself
TUnlisted == /\ Is("unlisted") /\ UNCHANGED known
             /\ IF E.k = "4217" THEN E.code \in DOMAIN CurrencyName \/ E.text = E.code
                ELSE E.code \in DOMAIN CountryName \cup {"IN"} \/ E.text = "iso_3166_1_alpha_2 " \o E.code
\* money: m / 2^k units of a currency with den subunits
TMoney == /\ Is("money") /\ UNCHANGED known
          /\ E.price = Towards(E.m, E.k, E.den) /\ E.away = Away(E.m, E.k, E.den) /\ E.near = Towards(E.m, E.k, E.den) /\ E.units = E.price
          /\ E.same /\ (E.m >= 0 => E.amount = E.price /\ E.amountaway = E.away /\ E.back = E.amount)
\* the number m / 2^k as a rate in units of 1 / p
TRate == /\ Is("rate") /\ UNCHANGED known
         /\ IsFraction(E.n, E.d, Towards(E.m, E.k, E.p), E.p)
         /\ E.exact
         \* the same in the precision of another rate, 1 / p
         /\ (E.m > 0 /\ E.n >= 1 => IsFraction(E.xn, E.xd, Towards(E.m, E.k, E.p), E.p))
\* growth from one price level to another over a time
TInflation == /\ Is("inflation") /\ UNCHANGED known
              /\ IsFraction(E.n, E.d, E.to - E.from, E.from) /\ E.t = E.over /\ E.in = E.n /\ E.id = E.d /\ E.it = E.over
TraceNext == TNew \/ TCode \/ TCompare \/ TCurrency \/ TCountry \/ TJurisdiction \/ TTable \/ TUnlisted \/ TMoney \/ TRate \/ TInflation
TraceSpec == TraceInit /\ [][TraceNext]_<<known, l>>
TraceAccepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
