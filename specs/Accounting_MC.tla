----------------------------- MODULE Accounting_MC -----------------------------
EXTENDS Accounting, FiniteSets, TLC, Json
CONSTANTS Times, VMax, MaxOps, Emit
VARIABLES hist
mcvars == <<vars, hist>>
Vals == {Int2Big(n) : n \in (0 - VMax)..VMax}
I2B(n) == Int2Big(n)
SmallInt(b) == IF b = Zero THEN 0 ELSE b[1] * b[2][1]
MCInit == home = "USD" /\ flows = <<>> /\ rates = <<>> /\ quotes = <<>> /\ hist = <<>>
H(x) == Len(hist) < MaxOps /\ hist' = Append(hist, x)
MCNext == \/ \E t \in Times, v \in Vals : Record(t, v) /\ H(<<"F", t, SmallInt(v)>>)
          \/ \E n, d \in 1..3 : Rate("EUR", I2B(n), I2B(d)) /\ H(<<"R", n, d>>)
          \/ "EUR" \in DOMAIN rates /\ NoRate("EUR") /\ H(<<"r">>)
          \/ \E v \in Vals, c \in {"USD", "EUR"}, lo \in {1, 3} : Quote(1, [v |-> v, c |-> c, l |-> I2B(lo)]) /\ H(<<"Q", SmallInt(v), c, lo>>)
          \/ 1 \in DOMAIN quotes /\ NoQuote(1) /\ H(<<"q">>)
MCSpec == MCInit /\ [][MCNext]_mcvars
view == <<flows, rates, quotes, IF Emit THEN hist ELSE <<Len(hist)>>>>
T0 == 0
TEnd == 1 + CHOOSE t \in Times : \A u \in Times : u <= t
\* adjacent periods add up; income and expenses make up revenue; the order of the record does not matter
Adjacent == \A a \in T0..TEnd : \A b \in a..TEnd : \A c \in b..TEnd : Add(Revenue(flows, a, b), Revenue(flows, b, c)) = Revenue(flows, a, c)
Split == \A a \in T0..TEnd : \A b \in a..TEnd : /\ Add(Income(flows, a, b), Expenses(flows, a, b)) = Revenue(flows, a, b)
                                                /\ Leq(Zero, Income(flows, a, b)) /\ Leq(Expenses(flows, a, b), Zero)
Everything == Revenue(flows, T0, TEnd) = Sum([i \in 1..Len(flows) |-> flows[i].v])
\* values are determined, a short position is worth the opposite of the same long position, doubling a holding at least doubles its size
Trunc(a, b) == IF a >= 0 THEN a \div b ELSE 0 - ((0 - a) \div b)
HomeInt(n, c) == IF c = home THEN n ELSE Trunc(n * SmallInt(rates[c].n), SmallInt(rates[c].d))
Near(n) == {n - 1, n, n + 1}
LocalInt(q) == Trunc(SmallInt(quotes[1].v) * q, SmallInt(quotes[1].l))
Determined == SecurityKnown(1) => \A q \in 0..2 :
                 LET a == LocalInt(q) b == HomeInt(a, quotes[1].c) IN
                 {<<x, y>> \in Near(a) \X Near(b) : IsSecurity(1, I2B(q), I2B(x), I2B(y))} = {<<a, b>>}
Opposite == SecurityKnown(1) => \A q \in 0..2 :
              LET a == LocalInt(2 * q) b == HomeInt(a, quotes[1].c) IN IsShort(1, I2B(2), I2B(q), I2B(a), I2B(0 - b))
EmitTests == (Emit /\ Len(hist') = MaxOps) => PrintT(<<"TEST", ToJson(hist')>>)
================================================================================
