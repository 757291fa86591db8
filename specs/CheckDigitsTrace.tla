--------------------------- MODULE CheckDigitsTrace ----------------------------
EXTENDS CheckDigits, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<register, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
TraceInit == register = <<>> /\ l = 1
TNew == Is("new") /\ register' = <<>>
\* an entry that was accepted shows the complete code and the check digits
TEnter == /\ Is("enter") /\ Enter(E.k, E.s, E.full, E.strict)
          /\ IF register' = register THEN ~E.ok
             ELSE E.ok /\ E.text = register'[Len(register')].s /\ E.check = SubSeq(E.text, BodyLength(E.k) + 1, Len(E.text))
\* a code of the wrong length is refused
TLength == Is("length") /\ ~E.ok /\ UNCHANGED register
\* a code made up for a new entity is admissible; the same thing gets the same code
TCreate == /\ Is("create") /\ Admissible("lei", SubSeq(E.text, 1, 18)) /\ E.text = Complete("lei", SubSeq(E.text, 1, 18)) /\ E.same
           /\ SubSeq(E.text, 1, 4) = E.local /\ register' = Append(register, [k |-> "lei", s |-> E.text])
TraceNext == TNew \/ TEnter \/ TLength \/ TCreate
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
