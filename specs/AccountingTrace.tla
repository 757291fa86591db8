---------------------------- MODULE AccountingTrace ----------------------------
EXTENDS Accounting, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<vars, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
TraceInit == home = "" /\ flows = <<>> /\ rates = <<>> /\ quotes = <<>> /\ l = 1
TNew == Is("new") /\ home' = E.home /\ flows' = <<>> /\ rates' = <<>> /\ quotes' = <<>>
TRecord == Is("flow") /\ Record(E.t, E.v)
TRate == Is("rate") /\ Rate(E.c, E.n, E.d)
TNoRate == Is("norate") /\ NoRate(E.c)
TQuote == Is("quote") /\ Quote(E.s, E.q)
TNoQuote == Is("noquote") /\ NoQuote(E.s)
TStatement == /\ Is("statement") /\ UNCHANGED vars /\ E.c = home
              /\ E.revenue = Revenue(flows, E.lo, E.hi) /\ E.income = Income(flows, E.lo, E.hi) /\ E.expenses = Expenses(flows, E.lo, E.hi)
              /\ E.history = E.revenue
TValue == /\ Is("value") /\ UNCHANGED vars
          /\ IF E.k = "cash" THEN E.ok = CashKnown(E.s) /\ (E.ok => E.c = home /\ IsCash(E.s, E.q, E.r))
             ELSE IF E.k = "loan" THEN E.ok /\ E.c = home /\ IsLoan(E.size, E.q, E.r)
             ELSE /\ E.ok = SecurityKnown(E.s)
                  /\ E.ok => /\ E.c = home
                             /\ IF E.k = "stock" THEN IsSecurity(E.s, E.q, E.local, E.r) ELSE IsShort(E.s, E.size, E.q, E.local, E.r)
TraceNext == TNew \/ TRecord \/ TRate \/ TNoRate \/ TQuote \/ TNoQuote \/ TStatement \/ TValue
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
