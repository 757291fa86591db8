------------------------------- MODULE ValuesTrace -----------------------------
EXTENDS Values, TLC, Json, IOUtils
CONSTANT Props
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<qs, ps, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
TraceInit == qs = <<>> /\ ps = <<>> /\ l = 1
\* every event shows all registers afterwards
Shown == qs' = E.qs /\ ps' = E.ps
TNew == Is("new") /\ Shown
\* register E.t (0: none) receives the result; E.r is the value of the expression
Stored(regs, r, after) == IF r = Refused THEN ~E.ok /\ after = regs ELSE E.ok /\ after = (IF E.t = 0 THEN regs ELSE [regs EXCEPT ![E.t] = r[1]])
TQ == /\ Is("q") /\ UNCHANGED ps /\ qs' = E.after /\ (E.j > 0 => E.b = qs[E.j])
      /\ LET r == QResult(E.op, qs[E.i], E.b) IN
         /\ Stored(qs, r, E.after)
         \* postfix operators have the old value
         /\ E.ok => E.r = (IF E.post THEN qs[E.i] ELSE r[1])
YesNo(b) == IF b THEN "yes" ELSE "no"
TQCmp == /\ Is("qcmp") /\ UNCHANGED <<qs, ps>>
         /\ LET a == qs[E.i] b == qs[E.j] IN
            E.res = [eq |-> YesNo(a = b), ne |-> YesNo(a # b), lt |-> YesNo(Less(a, b)), gt |-> YesNo(Less(b, a)),
                     le |-> YesNo(Leq(a, b)), ge |-> YesNo(Leq(b, a))]
TParts == Is("parts") /\ UNCHANGED <<qs, ps>> /\ IsDivision(qs[E.i], E.k, E.parts) /\ E.after = qs
TQuot == Is("qquot") /\ UNCHANGED ps /\ qs' = E.after /\ qs' = [qs EXCEPT ![E.i] = qs'[E.i]] /\ IsQuotient(qs[E.i], E.k, qs'[E.i])
TP == /\ Is("p") /\ UNCHANGED qs /\ ps' = E.after
      /\ LET r == PResult(E.op, ps[E.i], ps[E.j]) IN Stored(ps, r, E.after) /\ (E.ok => E.r = r[1])
TPQuot == /\ Is("pquot") /\ UNCHANGED qs /\ ps' = E.after
          /\ IF ~Comparable(ps[E.i], ps[E.j]) THEN ~E.ok /\ ps' = ps
             ELSE Stored(ps, <<E.r>>, E.after) /\ IsPQuotient(ps[E.i], ps[E.j], E.r)
TNeg == Is("neg") /\ UNCHANGED <<qs, ps>> /\ E.after = ps /\ E.r = [ps[E.i] EXCEPT !.v = Neg(ps[E.i].v)]
\* price times a whole number, from either side
TScale == Is("scale") /\ UNCHANGED <<qs, ps>> /\ E.after = ps /\ E.r = [ps[E.i] EXCEPT !.v = Mul(ps[E.i].v, E.k)]
TConvert == Is("convert") /\ UNCHANGED <<qs, ps>> /\ E.after = ps /\ IsConverted(ps[E.i], E.n, E.d, E.r)
Outcome(o) == IF o = Refused THEN "refused" ELSE IF o[1] THEN "yes" ELSE "no"
TPCmp == /\ Is("pcmp") /\ UNCHANGED <<qs, ps>>
         /\ \A op \in Comparisons : E.res[op] = Outcome(Order(op, ps[E.i], ps[E.j]))
\* a value in floating point, and back
TFloat == Is("float") /\ UNCHANGED <<qs, ps>> /\ IsFloat(ps[E.i].v, E.den, E.m, E.s)
TApprox == Is("approx") /\ UNCHANGED <<qs, ps>> /\ E.r.c = ps[E.i].c /\ IsTruncated(E.n, E.s, E.den, E.r.v)
TraceNext == TFloat \/ TApprox \/ TNew \/ TQ \/ TQCmp \/ TParts \/ TQuot \/ TP \/ TPQuot \/ TNeg \/ TScale \/ TConvert \/ TPCmp
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
