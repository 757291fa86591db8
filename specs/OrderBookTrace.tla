---------------------------- MODULE OrderBookTrace ----------------------------
(* Trace validation: every recorded event must be an action of OrderBook with the logged arguments. *)
EXTENDS OrderBook, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<bookvars, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
TraceInit == Init0([kind |-> "none", lo |-> 0, hi |-> 0, lot |-> 1]) /\ l = 1
TNew == /\ Is("new")
        /\ cfg' = [kind |-> E.kind, lo |-> E.lo, hi |-> E.hi, lot |-> E.lot]
        /\ active' = <<>> /\ used' = {} /\ cur' = Idle /\ half' = NoHalf /\ clock' = 0
TInsert == Is("insert") /\ Insert([side |-> E.side, price |-> E.price, lot |-> E.lot, qty |-> E.qty, owner |-> E.owner,
                                   life |-> E.life])
TTaker == Is("rep") /\ E.state = Matched /\ E.id = NONE /\ TakerFill(E)
TMaker == Is("rep") /\ E.state = Matched /\ E.id # NONE /\ MakerFill(E)
TPlace == Is("rep") /\ E.state = Placed /\ Place(E)
TKill  == Is("rep") /\ E.state = Cancelled /\ cur.op = "insert" /\ Kill(E)
TReject == Is("rep") /\ E.state = Invalid /\ Reject(E)
TCancel == Is("cancel") /\ Cancel(E.id)
TCancelReport == Is("rep") /\ E.state = Cancelled /\ cur.op = "cancel" /\ CancelReport(E)
TReturn == Is("ret") /\ Return(E)
TraceNext == TNew \/ TInsert \/ TTaker \/ TMaker \/ TPlace \/ TKill \/ TReject \/ TCancel \/ TCancelReport \/ TReturn
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
