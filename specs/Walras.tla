--------------------------------- MODULE Walras --------------------------------
(* A Walrasian price setter.  It quotes its participants, waits for their excess demand functions, moves every quote by the
   multiplier at which aggregate excess demand vanishes, and settles: the demands at these prices are rounded to whole units
   that add up to zero, buyers first close short positions and then receive units, sellers first deliver units and then go short.
   order: [from |-> , sent |-> , lines |-> sequence of [p, kind, w, s, c, long, short, u]]: the excess demand, in cents, for p at the
   price P (cents a unit) is w - s P for kind "a" without coupling (c = 0); u: thousandths of units demanded at the new prices;
   long, short: the position the participant states. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES quotes,     \* traded property -> <<value, lot>>
          members,    \* participants
          quoted      \* latest time for which quotes were sent, -1: never
wvars == <<quotes, members, quoted>>
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sum(s, k - 1)
\* all lines about p: <<from, line>>
RECURSIVE Lines(_, _, _)
Lines(os, p, k) == IF k = 0 THEN <<>> ELSE Lines(os, p, k - 1) \o
                   [j \in 1..Len(SelectSeq(os[k].lines, LAMBDA x : x.p = p)) |-> [from |-> os[k].from, x |-> SelectSeq(os[k].lines, LAMBDA x : x.p = p)[j]]]
LinesOf(os, p) == Lines(os, p, Len(os))
Total(ls, f) == Sum([k \in 1..Len(ls) |-> ls[k].x[f]], Len(ls))
Fresh(os, lo) == SelectSeq(os, LAMBDA o : o.sent >= lo)
Clears(os, lo) == Fresh(os, lo) # <<>>
Trunc(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
\* --------- prices
BREAK == 11
\* the value v of a quote moved by the factor n / d, within the circuit breaker, and never to zero
Moved(v, n, d) == Max2(1, IF n * 1 > BREAK * d THEN BREAK * v ELSE IF n * BREAK < d THEN v \div BREAK ELSE (v * n) \div d)
\* every demand for every property is affine and not coupled: the clearing price of p, in cents a unit, is W / S
Affine(os) == \A p \in DOMAIN quotes : LET ls == LinesOf(os, p) IN /\ ls # <<>> /\ Total(ls, "s") > 0
                                                                   /\ \A k \in 1..Len(ls) : ls[k].x.kind = "a" /\ ls[k].x.c = 0
\* the new value of the quote of p: trunc(W lot / S) within the circuit breaker; rounding errors and the tolerance of the solver
\* (one hundredth of a cent of excess demand) may show when the quotient is next to an integer
NewValues(os, p) ==
    LET ls == LinesOf(os, p)
        W == Total(ls, "w")
        S == Total(ls, "s")
        v == quotes[p][1]
        l == quotes[p][2]
        q == (W * l) \div S
        r == (W * l) % S
        cut(x) == Max2(1, IF x > BREAK * v THEN BREAK * v ELSE IF x < v \div BREAK THEN v \div BREAK ELSE x)
    IN {cut(q)} \cup (IF r * 100 <= l THEN {cut(q - 1)} ELSE {}) \cup (IF (S - r) * 100 <= l THEN {cut(q + 1)} ELSE {})
\* raw: a hundred times the old value times the multiplier
InBreaker(v, raw) == raw <= BREAK * 100 * v + 1 /\ raw + 1 >= (100 * v) \div BREAK
FromMultiplier(v, raw, new) == \/ new = Max2(1, raw \div 100)
                               \/ raw % 100 = 0 /\ new = Max2(1, raw \div 100 - 1)
                               \/ raw % 100 = 99 /\ new = Max2(1, raw \div 100 + 1)
\* --------- settlement
\* whole units of a demand of u thousandths
Whole(u) == Trunc(u, 1000)
Near(u) == LET m == Abs(u) % 1000 IN m <= 1 \/ m >= 999
\* largest correction of a participant that makes the rounded demands balance
Slack(ls) == LET e == Abs(Sum([k \in 1..Len(ls) |-> Whole(ls[k].x.u)], Len(ls)))
                 n == Len(ls)
             IN ((e + n - 1) \div n) + (IF \E k \in 1..n : Near(ls[k].x.u) THEN 1 ELSE 0)
\* a participant with a position buys (v > 0) or sells (v < 0): change of <<long, short>>
Settle(v, long, short) == IF v > 0 THEN <<v - Min2(v, short), -Min2(v, short)>>
                          ELSE <<-Min2(-v, long), (-v) - Min2(-v, long)>>
\* cents for n units at value w for each lot of l
Cents(n, w, l) == (n * w) \div l
\* cents paid (positive) or received by a participant that trades v: short positions are closed at the old or the new quote
Pays(v, long, short, old, new, l) ==
    IF v > 0 THEN {Cents(Min2(v, short), w, l) + Cents(v - Min2(v, short), new, l) : w \in {old, new}}
    ELSE {-(Cents(Min2(-v, long), new, l) + Cents((-v) - Min2(-v, long), new, l))}
\* number of amounts that are rounded
Legs(v, long, short) == IF v = 0 THEN 0 ELSE 2
\* --------- the protocol
\* the market quotes each time point at most once
Quotes(os, lo) == IF Clears(os, lo) THEN lo + 1 > quoted ELSE lo > quoted
QuoteTime(os, lo) == IF Clears(os, lo) THEN lo + 1 ELSE lo
NextAct(os, lo) == IF Clears(os, lo) THEN lo + 1 ELSE lo
================================================================================
