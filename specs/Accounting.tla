------------------------------- MODULE Accounting ------------------------------
(* Books kept in one reporting currency: a record of cash flows, and what holdings are worth given exchange rates and market prices. *)
EXTENDS Integers, Sequences, Big
VARIABLES home,     \* the reporting currency
          flows,    \* sequence of [t |-> time, v |-> value]
          rates,    \* currency -> [n |-> , d |-> ] for known foreign currencies
          quotes    \* security -> [v |-> price, c |-> currency, l |-> lot] for securities with a market price
vars == <<home, flows, rates, quotes>>
Record(t, v) == flows' = Append(flows, [t |-> t, v |-> v]) /\ UNCHANGED <<home, rates, quotes>>
Rate(c, n, d) == rates' = [x \in (DOMAIN rates) \cup {c} |-> IF x = c THEN [n |-> n, d |-> d] ELSE rates[x]] /\ UNCHANGED <<home, flows, quotes>>
NoRate(c) == rates' = [x \in (DOMAIN rates) \ {c} |-> rates[x]] /\ UNCHANGED <<home, flows, quotes>>
Quote(s, q) == quotes' = [x \in (DOMAIN quotes) \cup {s} |-> IF x = s THEN q ELSE quotes[x]] /\ UNCHANGED <<home, flows, rates>>
NoQuote(s) == quotes' = [x \in (DOMAIN quotes) \ {s} |-> quotes[x]] /\ UNCHANGED <<home, flows, rates>>
\* ------------------------------------------------------------------ statements: periods include their beginning, not their end
Within(f, lo, hi) == lo <= f.t /\ f.t < hi
Positive(v) == IF v[1] > 0 THEN v ELSE Zero
Negative(v) == IF v[1] < 0 THEN v ELSE Zero
RECURSIVE Revenue(_, _, _), Income(_, _, _), Expenses(_, _, _)
Revenue(fs, lo, hi) == IF fs = <<>> THEN Zero ELSE Add(IF Within(fs[1], lo, hi) THEN fs[1].v ELSE Zero, Revenue(Tail(fs), lo, hi))
Income(fs, lo, hi) == IF fs = <<>> THEN Zero ELSE Add(IF Within(fs[1], lo, hi) THEN Positive(fs[1].v) ELSE Zero, Income(Tail(fs), lo, hi))
Expenses(fs, lo, hi) == IF fs = <<>> THEN Zero ELSE Add(IF Within(fs[1], lo, hi) THEN Negative(fs[1].v) ELSE Zero, Expenses(Tail(fs), lo, hi))
\* ------------------------------------------------------------------ valuations in the reporting currency, rounded towards zero
Known(c) == c = home \/ c \in DOMAIN rates
IsHome(v, c, r) == IF c = home THEN r = v ELSE IsQuotient(Mul(v, rates[c].n), rates[c].d, r)
\* an amount of cash in currency c
CashKnown(c) == Known(c)
IsCash(c, q, r) == IsHome(q, c, r)
\* a security: price per lot times quantity, `local` is its value in the currency of the quote
SecurityKnown(s) == s \in DOMAIN quotes /\ Known(quotes[s].c)
IsSecurity(s, q, local, r) == IsQuotient(Mul(quotes[s].v, q), quotes[s].l, local) /\ IsHome(local, quotes[s].c, r)
\* contracts to return `size` of a security each
IsShort(s, size, q, local, r) == IsSecurity(s, Mul(size, q), local, Neg(r))
\* a debt in whole units of the reporting currency, which has `den` smallest units
IsLoan(den, q, r) == r = Neg(Mul(q, den))
================================================================================
