-------------------------------- MODULE Feed_MC --------------------------------
EXTENDS Feed, Json, FiniteSets, TLC
CONSTANTS Types, Statuses, Reasons, Sides, Scales, Most, Emit
VARIABLE file
\* a record from the fields that matter here, the others zero
Rec(t, st, re, si, sc) == [k \in 1..Size |-> CASE k = 5 -> t \div 256 [] k = 6 -> t % 256 [] k = 11 -> 65 [] k \in 12..21 -> 32 [] k = 35 -> st
                                               [] k = 41 -> sc [] k = 45 -> 77 [] k = 53 -> 5 [] k = 56 -> si [] k = 58 -> re [] OTHER -> 0]
MCInit == file = <<>> /\ rest = <<>> /\ sink = <<>>
\* the exchange appends a record, the reader reads one
Write == /\ Len(file) < Most /\ rest = <<>>
         /\ \E t \in Types, st \in Statuses, re \in Reasons, si \in Sides, sc \in Scales :
              LET r == Rec(t, st, re, si, sc) IN file' = Append(file, r) /\ rest' = Append(rest, r) /\ sink' = sink
MCNext == Write \/ (Read /\ file' = file)
MCSpec == MCInit /\ [][MCNext]_<<file, rest, sink>>
\* nothing is invented, lost or reordered
Seen == SubSeq(file, 1, Len(file) - Len(rest))
Faithful == /\ Len(sink) = Cardinality({k \in DOMAIN Seen : IsUpdate(Seen[k])})
            /\ \A k \in DOMAIN sink : LET u == SelectSeq(Seen, IsUpdate) IN sink[k] = Event(u[k])
Session == \A k \in DOMAIN sink : InSession(sink[k], <<65>>) => sink[k].symbol = <<65>> /\ sink[k].time = Zero
EmitTests == (Emit /\ Len(file') > Len(file)) => PrintT(<<"TEST", ToJson([k \in DOMAIN file' |-> <<Num16(file'[k], 4), file'[k][35], file'[k][58], file'[k][56], file'[k][41]>>])>>)
================================================================================
