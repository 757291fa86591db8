------------------------------ MODULE OutputsTrace -----------------------------
EXTENDS Outputs, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<vars, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
TraceInit == outs = <<>> /\ streams = <<>> /\ log = <<>> /\ l = 1
TNew == Is("new") /\ outs' = <<>> /\ streams' = <<>> /\ log' = <<>>
TCreate == Is("create") /\ IF CanCreate(E.n, E.kind) THEN E.ok /\ Create(E.n, E.kind) ELSE ~E.ok /\ UNCHANGED vars
TAttach == Is("attach") /\ IF Known(E.n) THEN E.ok /\ Attach(E.n, E.s) ELSE ~E.ok /\ UNCHANGED vars
TStream == Is("stream") /\ NewStream
TBuffer == Is("buffer") /\ Buffer(E.n, E.b)
TPut == Is("put") /\ Put(E.n, E.t, E.v)
\* the values an output kept, the lines on a stream
TValues == Is("values") /\ UNCHANGED vars /\ E.values = outs[E.n].values
TLines == Is("lines") /\ UNCHANGED vars /\ E.lines = streams[E.s]
TSay == Is("say") /\ Say(E.filter, E.level, E.text)
TLog == Is("log") /\ UNCHANGED vars /\ E.messages = log
\* a file that could be created
TFile == Is("file") /\ UNCHANGED vars /\ E.ok = E.possible
TraceNext == TNew \/ TCreate \/ TAttach \/ TStream \/ TBuffer \/ TPut \/ TValues \/ TLines \/ TSay \/ TLog \/ TFile
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
