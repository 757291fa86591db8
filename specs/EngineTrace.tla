------------------------------ MODULE EngineTrace -------------------------------
EXTENDS Engine, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
TraceInit == l = 1 /\ Init0([kind |-> "none", lo |-> 0, hi |-> 0, lot |-> 1])
\* E.books: [t, reps, bid, ask, orders] of every book in the engine after the request
Seen == /\ Len(E.books) = Cardinality(DOMAIN books') /\ {E.books[k].t : k \in 1..Len(E.books)} = DOMAIN books'
        /\ \A k \in 1..Len(E.books) : LET o == E.books[k] IN Publishes(books'[o.t], o) /\ AllAgree(o.reps, reps'[o.t])
\* the identifier of a placement is that of the last report of the instrument's book
Fresh == LET S == {k \in 1..Len(E.books) : E.books[k].t = E.t /\ E.books[k].reps # <<>>} IN
         IF S = {} THEN NONE ELSE LET r == E.books[CHOOSE k \in S : TRUE].reps IN r[Len(r)].id
O == [side |-> E.side, price |-> E.price, lot |-> E.lot, qty |-> E.qty, owner |-> E.owner, life |-> E.life]
TNew == Is("new") /\ cfg' = [kind |-> E.kind, lo |-> E.lo, hi |-> E.hi, lot |-> E.lot] /\ books' = <<>> /\ reps' = <<>>
TInsert == Is("insert") /\ Insert(E.t, O, Fresh) /\ G("C09", Seen)
TCancel == Is("cancel") /\ Cancel(E.t, E.id) /\ G("C09", Seen)
TClear == Is("clear") /\ Clear(E.t) /\ G("C09", Seen)
TraceNext == TNew \/ TInsert \/ TCancel \/ TClear
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
