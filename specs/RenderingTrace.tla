----------------------------- MODULE RenderingTrace ----------------------------
EXTENDS Rendering, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
TraceInit == l = 1
TNew == Is("new")
\* a block of records written to a stream
TRecords == Is("records") /\ ReadsAs(E.out, E.rows, 44, 34, 92)
\* one text with any delimiter, quote and escape character
TRender == Is("render") /\ ReadsAs(Append(E.out, NL), <<<<E.text>>>>, E.d, E.q, E.x)
TShow == Is("show") /\ E.out = Text(E.value)
TraceNext == TNew \/ TRecords \/ TRender \/ TShow
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
