---------------------------- MODULE BlockPoolTrace ----------------------------
EXTENDS BlockPool, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<pvars, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
TraceInit == Init0(0) /\ l = 1
TNew == Is("new") /\ cap' = E.cap /\ store' = <<>> /\ highest' = -1
TEmplace == Is("emplace") /\ E.ok /\ E.got = E.v /\ Emplace(E.v, E.id)
TFull == Is("emplace") /\ ~E.ok /\ EmplaceFull
TErase == Is("erase") /\ E.n = 1 /\ Erase(E.id)
TVacant == Is("erase") /\ E.n = 0 /\ EraseVacant(E.id)
Map(ids, vals) == [i \in {ids[k] : k \in 1..Len(ids)} |-> vals[CHOOSE k \in 1..Len(ids) : ids[k] = i]]
TState == /\ Is("state") /\ E.size = Cardinality(DOMAIN store) /\ E.cap = cap
          /\ Len(E.ids) = Cardinality(DOMAIN store)
          /\ Map(E.ids, E.vals) = store /\ Map(E.ids, E.cvals) = store /\ Map(E.ids, E.avals) = store
          /\ UNCHANGED pvars
TraceNext == TNew \/ TEmplace \/ TFull \/ TErase \/ TVacant \/ TState
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
