------------------------------- MODULE FeedTrace -------------------------------
EXTENDS Feed, Json, IOUtils, TLC
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
TraceInit == l = 1 /\ FInit(<<>>)
\* a file is written: whole records and the beginning of another
TFile == Is("file") /\ rest = <<>> /\ rest' = E.records /\ sink' = <<>> /\ E.tail < Size
Matches(e, x) == /\ x.symbol = e.symbol /\ x.status = e.status /\ x.reason = e.reason /\ x.time = e.time /\ SamePrice(e, x.value, x.lot)
                 /\ x.usd /\ x.quantity = e.quantity /\ x.buy = e.buy
\* records that are no updates are passed over in silence: a number of Read steps without an event
RECURSIVE Skip(_)
Skip(s) == IF s = <<>> \/ IsUpdate(Head(s)) THEN s ELSE Skip(Tail(s))
TEvent == Is("event") /\ LET s == Skip(rest) IN
            s # <<>> /\ Matches(Event(Head(s)), E) /\ rest' = Tail(s) /\ sink' = Append(sink, Event(Head(s)))
TDone == Is("done") /\ Skip(rest) = <<>> /\ rest' = <<>> /\ sink' = sink
\* the main session of one instrument
TSession == /\ Is("session") /\ UNCHANGED fvars
            /\ LET want == SelectSeq(sink, LAMBDA e : InSession(e, E.symbol)) IN
               Len(want) = Len(E.events) /\ \A k \in 1..Len(want) : Matches(want[k], E.events[k])
TNew == Is("new") /\ rest' = <<>> /\ sink' = <<>>
TraceNext == TNew \/ TFile \/ TEvent \/ TDone \/ TSession
TraceSpec == TraceInit /\ [][TraceNext]_<<fvars, l>>
TraceAccepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
