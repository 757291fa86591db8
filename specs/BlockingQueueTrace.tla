-------------------------- MODULE BlockingQueueTrace ---------------------------
EXTENDS BlockingQueue, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<qvars, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1 /\ TLCSet(1, IF TLCGet(1) > l THEN TLCGet(1) ELSE l)
TraceInit == Init0 /\ l = 1 /\ TLCSet(1, 0)
TNew == Is("new") /\ q' = <<>> /\ closed' = FALSE /\ pend' = <<>>
TCall == Is("call") /\ Call(E.t, E.op, E.x)
TRet == Is("ret") /\ Return(E.t, E.ok, E.x)
TQuiet == Is("quiet") /\ Quiet
TEnd == Is("end") /\ End
\* effects are placed just before the return of some call that needs them
Lin == /\ l <= Len(Trace) /\ E.e = "ret" /\ E.t \in DOMAIN pend /\ ~pend[E.t].done
       /\ \E t \in DOMAIN pend : Effect(t) /\ (t = E.t => pend'[t].ok = E.ok /\ pend'[t].r = E.x)
       /\ l' = l
TraceNext == TNew \/ TCall \/ TRet \/ TQuiet \/ TEnd \/ Lin
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == PrintT(<<"REACHED", TLCGet(1)>>) /\ TLCGet(1) = Len(Trace)
================================================================================
