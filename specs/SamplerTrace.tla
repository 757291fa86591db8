------------------------------ MODULE SamplerTrace -----------------------------
EXTENDS Sampler, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<vars, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
TraceInit == memo = <<>> /\ params = <<>> /\ l = 1
TNew == Is("new") /\ memo' = <<>> /\ params' = <<>>
\* exact: the first and the last level are exactly the bounds
TSample == Is("sample") /\ E.exact /\ Sample([method |-> E.method, args |-> E.args, seed |-> E.seed], E.r)
TSet == Is("set") /\ Set(E.n, E.type, E.v)
TGet == Is("get") /\ UNCHANGED vars /\ IF Readable(E.n, E.type) THEN E.ok /\ E.v = params[E.n].value ELSE ~E.ok
TraceNext == TNew \/ TSample \/ TSet \/ TGet
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
