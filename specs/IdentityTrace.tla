----------------------------- MODULE IdentityTrace -----------------------------
EXTENDS Identity, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<ids, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
TraceInit == Init0({}) /\ l = 1
TNew == Is("new") /\ ids' = {E.roots[k] : k \in 1..Len(E.roots)}
TCreate == Is("create") /\ Create(E.p, E.c)
\* storing an entity and loading it again changes nothing
TStore == Is("store") /\ E.a = E.b /\ UNCHANGED ids
\* E.a, E.b may be split into limbs so that they fit TLC's integers
TCompare == /\ Is("cmp") /\ UNCHANGED ids
            /\ E.eq = (E.a = E.b) /\ E.ne = (E.a # E.b)
            /\ E.lt = Less(E.a, E.b) /\ E.gt = Less(E.b, E.a) /\ E.le = ~Less(E.b, E.a) /\ E.ge = ~Less(E.a, E.b)
            /\ (E.a = E.b => E.hash) /\ E.types = (E.a = E.b) /\ E.ent = (E.a = E.b)
TShow == Is("show") /\ UNCHANGED ids /\ E.s = Rendered(E.a, E.w)
TraceNext == TNew \/ TCreate \/ TStore \/ TCompare \/ TShow
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
