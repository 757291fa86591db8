--------------------------------- MODULE Values --------------------------------
(* Registers of quantities, of prices and of quotes, and the operations on them.  An operation that is refused changes nothing. *)
EXTENDS Integers, Sequences, Big
VARIABLES qs, ps
\* qs: quantities (whole numbers >= 0); ps: records [v |-> value in the smallest unit, c |-> currency, l |-> lot size]
\* a price is a register with lot size 0, a quote one with lot size >= 1
\* ------------------------------------------------------------------ quantities
\* new value of register i under a binary operator with the value b; Refused if there is none
\* results are sequences: empty when the operation is refused, otherwise with the one result
Refused == <<>>
QResult(op, a, b) == CASE op = "add" -> <<Add(a, b)>>
                       [] op = "sub" -> IF Less(a, b) THEN Refused ELSE <<Sub(a, b)>>
                       [] op = "mul" -> <<Mul(a, b)>>
                       [] op = "inc" -> <<Add(a, One)>>
                       [] op = "dec" -> IF a = Zero THEN Refused ELSE <<Sub(a, One)>>
\* the k parts of a
IsDivision(a, k, parts) == /\ Len(parts) = k
                           /\ Sum(parts) = a
                           /\ \A i \in 1..k - 1 : parts[i] = parts[i + 1] \/ parts[i] = Add(parts[i + 1], One)
                           /\ k > 0 => (parts[1] = parts[k] \/ parts[1] = Add(parts[k], One))
\* ------------------------------------------------------------------ prices and quotes
Comparable(x, y) == x.c = y.c /\ x.l = y.l
PResult(op, x, y) == IF ~Comparable(x, y) THEN Refused
                     ELSE CASE op = "add" -> <<[x EXCEPT !.v = Add(x.v, y.v)]>>
                            [] op = "sub" -> <<[x EXCEPT !.v = Sub(x.v, y.v)]>>
                            [] op = "mul" -> <<[x EXCEPT !.v = Mul(x.v, y.v)]>>
IsPQuotient(x, y, z) == Comparable(x, y) /\ z.c = x.c /\ z.l = x.l /\ IsQuotient(x.v, y.v, z.v)
\* ordering is refused between currencies and between lot sizes; so is equality of quotes with different lot sizes
Order(op, x, y) == IF x.l # y.l \/ (x.c # y.c /\ op \notin {"eq", "ne"}) THEN Refused
                   ELSE CASE op = "eq" -> <<x.v = y.v /\ x.c = y.c>>
                          [] op = "ne" -> <<~(x.v = y.v /\ x.c = y.c)>>
                          [] op = "lt" -> <<Less(x.v, y.v)>> [] op = "gt" -> <<Less(y.v, x.v)>>
                          [] op = "le" -> <<Leq(x.v, y.v)>> [] op = "ge" -> <<Leq(y.v, x.v)>>
Comparisons == {"eq", "ne", "lt", "gt", "le", "ge"}
\* an exchange rate n/d applied to a price
IsConverted(x, n, d, z) == z.c = x.c /\ z.l = x.l /\ IsQuotient(Mul(x.v, n), d, z.v)
\* floating point: a price is m / 2^e units of its currency, of which den make a minor unit; good to two parts in 2^52
RECURSIVE Pow2(_)
Pow2(e) == IF e = 0 THEN One ELSE IF e >= 13 THEN Mul(Int2Big(8192), Pow2(e - 13)) ELSE Mul(Int2Big(2), Pow2(e - 1))
IsFloat(v, den, m, e) == LET x == Mul(v, Pow2(e)) IN Leq(Mul(Abs(Sub(Mul(m, den), x)), Pow2(51)), Abs(x))
\* and from floating point by truncation
IsTruncated(n, e, den, v) == IsQuotient(Mul(n, den), Pow2(e), v)
================================================================================
