-------------------------------- MODULE Numeric --------------------------------
\* C31: numeric helpers: intervals, integer powers, parts of sequences, allocation of fractions, barycentric grids.
EXTENDS Integers, Sequences, FiniteSets
\* ------------------------------------------------------------------ intervals with the bounds lo and hi
\* lc, rc: whether the bounds belong to the interval
Contains(lo, hi, lc, rc, v) == (lo < v \/ (lc /\ lo = v)) /\ (v < hi \/ (rc /\ v = hi))
\* number of elements: 0, 1, or 2 for more
Few(n) == IF n > 1 THEN 2 ELSE IF n < 0 THEN 0 ELSE n
Size(lo, hi, lc, rc, dense) ==
    CASE lo > hi -> 0
      [] lo = hi -> IF lc /\ rc THEN 1 ELSE 0
      [] OTHER -> IF dense THEN 2 ELSE Few(hi - lo - 1 + (IF lc THEN 1 ELSE 0) + (IF rc THEN 1 ELSE 0))
\* ------------------------------------------------------------------ powers
RECURSIVE Power(_, _)
Power(x, p) == IF p = 0 THEN 1 ELSE x * Power(x, p - 1)
\* ------------------------------------------------------------------ allocation of fractions (in units of 1/u)
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
Rounded(x, u) == (2 * x + u) \div (2 * u)
IsAllocation(fs, u, r) == /\ Len(r) = Len(fs)
                          /\ \A i \in 1..Len(fs) : r[i] * u <= fs[i] + u - 1 /\ fs[i] <= r[i] * u + u - 1
                          /\ Total(r) = Rounded(Total(fs), u)
\* ------------------------------------------------------------------ points of a barycentric grid (in units of 1/u)
IsGrid(ps, dim, u) == /\ \A i \in 1..Len(ps) : Len(ps[i]) = dim /\ Total(ps[i]) = u /\ \A k \in 1..dim : ps[i][k] >= 0
                      /\ Cardinality({ps[i] : i \in 1..Len(ps)}) = Len(ps)
Numbered(s) == [i \in 1..Len(s) |-> <<i - 1, s[i]>>]
================================================================================
