--------------------------------- MODULE Outputs -------------------------------
(* The outputs of a producer, the streams attached to them, and logs.  Values and times are texts. *)
EXTENDS Integers, Sequences
VARIABLES outs,      \* name -> [kind, values (sequence of <<time, value, ...>>), streams (sequence of stream numbers), buffered]
          streams,   \* sequence: the lines written to each stream, <<time, value>>
          log        \* the messages kept by the log: [level |-> , text |-> ]
vars == <<outs, streams, log>>
Known(n) == n \in DOMAIN outs
With(n, o) == [x \in (DOMAIN outs) \cup {n} |-> IF x = n THEN o ELSE outs[x]]
Arity(kind) == IF kind = "pair" THEN 2 ELSE 1
\* the same name and kind: the same output
CanCreate(n, kind) == Known(n) => outs[n].kind = kind
Create(n, kind) == /\ CanCreate(n, kind)
                   /\ outs' = IF Known(n) THEN outs ELSE With(n, [kind |-> kind, values |-> <<>>, streams |-> <<>>, buffered |-> FALSE])
                   /\ UNCHANGED <<streams, log>>
Attach(n, s) == Known(n) /\ outs' = With(n, [outs[n] EXCEPT !.streams = Append(@, s)]) /\ UNCHANGED <<streams, log>>
NewStream == streams' = Append(streams, <<>>) /\ UNCHANGED <<outs, log>>
Buffer(n, b) == Known(n) /\ outs' = With(n, [outs[n] EXCEPT !.buffered = b]) /\ UNCHANGED <<streams, log>>
RECURSIVE WriteTo(_, _, _)
WriteTo(ss, at, line) == IF at = <<>> THEN ss ELSE WriteTo([ss EXCEPT ![at[1]] = Append(@, line)], Tail(at), line)
RECURSIVE WriteAll(_, _, _, _)
\* a line for every variable
WriteAll(ss, at, t, vs) == IF vs = <<>> THEN ss ELSE WriteAll(WriteTo(ss, at, <<t, vs[1]>>), at, t, Tail(vs))
Put(n, t, vs) == /\ Known(n) /\ Len(vs) = Arity(outs[n].kind)
                 /\ outs' = With(n, [outs[n] EXCEPT !.values = Append(@, <<t>> \o vs)])
                 /\ streams' = IF outs[n].buffered THEN streams ELSE WriteAll(streams, outs[n].streams, t, vs)
                 /\ UNCHANGED log
\* a log keeps the messages whose severity is at least its filter
Severity(s) == CASE s = "trace" -> 0 [] s = "notice" -> 1 [] s = "warning" -> 2 [] s = "error" -> 3
Say(filter, level, text) == /\ log' = IF Severity(level) < Severity(filter) THEN log ELSE Append(log, [level |-> level, text |-> text])
                            /\ UNCHANGED <<outs, streams>>
================================================================================
