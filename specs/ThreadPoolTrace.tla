--------------------------- MODULE ThreadPoolTrace -----------------------------
EXTENDS ThreadPool, Json, IOUtils
VARIABLES l, want
Trace == ndJsonDeserialize(IOEnv.TRACE)
xvars == <<tvars, l, want>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
TraceInit == Init0 /\ l = 1 /\ want = 0
TNew == Is("new") /\ want' = E.n /\ size' = 0 /\ phase' = "none" /\ task' = <<>> /\ seen' = {}
Same == UNCHANGED want
TPool == Is("pool") /\ phase = "none" /\ E.threads = want /\ Open(E.threads) /\ Same
TSubmit == Is("submit") /\ Submit(E.i, E.by, E.fut) /\ Same
TAccepted == Is("accepted") /\ E.i \in DOMAIN task /\ UNCHANGED tvars /\ Same
TStart == Is("start") /\ E.k = 3 /\ Start(E.i, E.w) /\ Same
TFinish == Is("finish") /\ Finish(E.i, E.w, E.fail) /\ Same
TGot == Is("got") /\ Result(E.i, E.fail) /\ E.r = (IF E.fail THEN 0 ELSE E.i * 7 + 3) /\ Same
TDestroy == Is("destroy") /\ Destroy /\ Same
TGone == Is("gone") /\ Gone /\ Same
TEnd == Is("end") /\ phase = "gone" /\ UNCHANGED tvars /\ Same
TraceNext == TNew \/ TPool \/ TSubmit \/ TAccepted \/ TStart \/ TFinish \/ TGot \/ TDestroy \/ TGone \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_xvars
TraceAccepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
