------------------------------ MODULE NumericTrace -----------------------------
EXTENDS Numeric, TLC, Json, IOUtils
CONSTANT Pinned      \* whether the sizes of fully open and fully closed intervals that the project's tests pin are accepted
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
TraceInit == l = 1
TNew == Is("new")
Sized(n) == E.empty = (n = 0) /\ E.singleton = (n = 1) /\ E.degenerate = (n <= 1)
TInterval == /\ Is("interval")
             /\ \/ Sized(Size(E.lo, E.hi, E.lc, E.rc, E.dense))
                \/ Pinned /\ E.lc = E.rc /\ Sized(Size(E.lo, E.hi, ~E.lc, ~E.rc, E.dense))
             /\ E.left = E.lc /\ E.right = E.rc
             /\ \A i \in 1..Len(E.values) : E.contains[i] = Contains(E.lo, E.hi, E.lc, E.rc, E.values[i])
TPower == Is("power") /\ E.r = Power(E.x, E.p)
TSlice == Is("slice") /\ E.r = SubSeq(E.s, E.from + 1, E.to)
TConcat == Is("concat") /\ E.r = E.a \o E.b
TEnum == Is("enumerate") /\ E.pairs = Numbered(E.s) /\ E.after = [i \in 1..Len(E.s) |-> E.s[i] + i - 1]
TAllocate == Is("allocate") /\ IsAllocation(E.fs, E.u, E.r)
TGrid == Is("grid") /\ IsGrid(E.points, E.dim, E.u)
TMean == Is("mean") /\ E.r = Power(2, Total(E.exponents) \div Len(E.exponents)) * 1000
TraceNext == TNew \/ TInterval \/ TPower \/ TSlice \/ TConcat \/ TEnum \/ TAllocate \/ TGrid \/ TMean
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
