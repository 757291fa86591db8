----------------------------- MODULE ArchiveTrace ------------------------------
EXTENDS Archive, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
TraceInit == Init /\ l = 1
\* every object is observed after every operation
Seen == kind' = E.kinds /\ val' = E.values
TNew == /\ Is("new") /\ Seen
        /\ kind' = [s \in Slots |-> NoKind] /\ val' = [s \in Slots |-> ""] /\ arch' = <<>> /\ mode' = "write" /\ rp' = 0
TSet == Is("set") /\ Set(E.s, E.kinds[E.s], E.values[E.s]) /\ Seen
TSave == Is("save") /\ Save(E.s) /\ Seen
TRead == Is("read") /\ Read /\ Seen
TLoad == Is("load") /\ Load(E.s) /\ Seen
TWrite == Is("write") /\ Write /\ Seen
TraceNext == TNew \/ TSet \/ TSave \/ TRead \/ TLoad \/ TWrite
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
