------------------------------- MODULE Numeric_MC ------------------------------
EXTENDS Numeric, TLC, Json
CONSTANTS N, Emit
VARIABLES lo, hi, lc, rc, fs
Init == /\ lo \in 0..N /\ hi \in 0..N /\ lc \in BOOLEAN /\ rc \in BOOLEAN /\ fs = <<>>
Next == Len(fs) < 3 /\ lo = 0 /\ hi = 0 /\ lc /\ rc /\ \E f \in 0..2 * N : fs' = Append(fs, f) /\ UNCHANGED <<lo, hi, lc, rc>>
MCSpec == Init /\ [][Next]_<<lo, hi, lc, rc, fs>>
Elements == {v \in 0 - 1..N + 1 : Contains(lo, hi, lc, rc, v)}
SizeIsCount == Size(lo, hi, lc, rc, FALSE) = Few(Cardinality(Elements))
\* in a dense set: halves
Halves == {v \in 0 - 2..2 * N + 2 : Contains(2 * lo, 2 * hi, lc, rc, v)}
DenseSize == /\ (Size(lo, hi, lc, rc, TRUE) = 0) = (Halves = {})
             /\ (Size(lo, hi, lc, rc, TRUE) = 1) = (lo = hi /\ Halves = {2 * lo})
\* an allocation exists for all fractions
Allocatable == \E r \in [1..Len(fs) -> 0..N + 1] : IsAllocation(fs, N, r)
EmitTests == (Emit /\ Len(fs') = 3) => PrintT(<<"TEST", ToJson(fs')>>)
================================================================================
