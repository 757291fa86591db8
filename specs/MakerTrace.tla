------------------------------- MODULE MakerTrace ------------------------------
EXTENDS Maker, Json, IOUtils, TLC
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
None == [mid |-> 0]
TraceInit == l = 1 /\ par = None
TAsk == Is("ask") /\ par = None /\ par' = [mid |-> E.mid, long |-> E.long, short |-> E.short, t |-> E.t, sig |-> E.sig, g |-> E.g, kk |-> E.kk, den |-> E.den]
TQuotes == Is("quotes") /\ par # None /\ par' = None /\ E.same /\ Quotes(par, E.bid, E.ask)
TNew == Is("new") /\ par' = None
TraceNext == TNew \/ TAsk \/ TQuotes
TraceSpec == TraceInit /\ [][TraceNext]_<<par, l>>
TraceAccepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
