----------------------------- MODULE OrderBook_MC -----------------------------
(* Exhaustive exploration of the order book design within small constants: the environment submits and cancels orders,
   the book emits any reports the specification allows.  `hist' is the script of operations that led here; it is hidden
   by the VIEW and printed for every explored (book state, operation) pair, giving one implementation test each. *)
EXTENDS OrderBook, Json
CONSTANTS PriceSet, QtySet, Lifes, MaxOps, MaxOrders, Emit, WithInvalid
VARIABLES hist, n, filled, killed   \* filled, killed: per order ordinal, for the conservation invariant
mcvars == <<bookvars, hist, n, filled, killed>>
view == <<cfg, active, used, cur, half, clock, n, filled, killed>>

MCInit == /\ Init0([kind |-> "mc", lo |-> CHOOSE p \in PriceSet : \A q \in PriceSet : p <= q,
                    hi |-> CHOOSE p \in PriceSet : \A q \in PriceSet : p >= q, lot |-> 1])
          /\ hist = <<>> /\ n = 0 /\ filled = <<>> /\ killed = <<>>

Op(h) == hist' = Append(hist, h)
MCInsert == \E s \in {Buy, Sell}, p \in PriceSet \cup (IF WithInvalid THEN {99} ELSE {}), q \in QtySet, f \in Lifes :
   /\ n < MaxOrders /\ Len(hist) < MaxOps
   /\ Insert([side |-> s, price |-> p, lot |-> 1, qty |-> q, owner |-> n, life |-> f])
   /\ Op(<<0, s, p, q, f>>) /\ n' = n + 1
   /\ filled' = Append(filled, 0) /\ killed' = Append(killed, 0)
MCCancel == \E id \in 0..(n - 1) :
   /\ Len(hist) < MaxOps
   /\ Cancel(id) /\ Op(<<1, id, 0, 0, 0>>) /\ UNCHANGED <<n, filled, killed>>
MCTaker == /\ cur.op = "insert" /\ half = NoHalf
           /\ \E q \in 1..cur.rem, p \in PriceSet :
                /\ \E i \in DOMAIN active : active[i].price = p
                /\ TakerFill([qty |-> q, price |-> p, side |-> cur.o.side, owner |-> cur.o.owner])
           /\ UNCHANGED <<hist, n, filled, killed>>
MCMaker == /\ cur.op = "insert" /\ half # NoHalf
           /\ \E i \in DOMAIN active :
                /\ MakerFill([qty |-> half.qty, price |-> half.price, side |-> 1 - cur.o.side, id |-> i,
                              owner |-> active[i].owner])
                /\ filled' = [filled EXCEPT ![n] = @ + half.qty, ![i + 1] = @ + half.qty]
           /\ UNCHANGED <<hist, n, killed>>
MCPlace == /\ cur.op = "insert"
           /\ Place([qty |-> cur.rem, price |-> cur.o.price, side |-> cur.o.side, owner |-> cur.o.owner, id |-> n - 1])
           /\ UNCHANGED <<hist, n, filled, killed>>
MCKill == /\ cur.op = "insert"
          /\ Kill([qty |-> cur.rem, side |-> cur.o.side, owner |-> cur.o.owner])
          /\ killed' = [killed EXCEPT ![n] = cur.rem]
          /\ UNCHANGED <<hist, n, filled>>
MCReject == /\ cur.op = "insert"
            /\ Reject([qty |-> cur.o.qty, side |-> cur.o.side, owner |-> cur.o.owner, price |-> cur.o.price])
            /\ killed' = [killed EXCEPT ![n] = cur.o.qty]
            /\ UNCHANGED <<hist, n, filled>>
MCCancelReport == /\ cur.op = "cancel"
            /\ cur.id \in DOMAIN active
            /\ LET o == active[cur.id] IN
                 CancelReport([id |-> cur.id, qty |-> o.qty, side |-> o.side, price |-> o.price, owner |-> o.owner])
            /\ killed' = [killed EXCEPT ![cur.id + 1] = active[cur.id].qty]
            /\ UNCHANGED <<hist, n, filled>>
SeqOf(S) == CHOOSE f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j]
MCReturn == /\ Return([bid |-> Best(Buy), ask |-> Best(Sell), orders |-> SeqOf(DOMAIN active)])
            /\ UNCHANGED <<hist, n, filled, killed>>
MCNext == MCInsert \/ MCCancel \/ MCTaker \/ MCMaker \/ MCPlace \/ MCKill \/ MCReject \/ MCCancelReport \/ MCReturn
MCSpec == MCInit /\ [][MCNext]_mcvars

\* one test per explored (state, operation): printed when an operation is issued
EmitTests == (Emit /\ Len(hist') > Len(hist)) => PrintT(<<"TEST", ToJson(hist')>>)

Ordinal(k) == k - 1 \in DOMAIN active
Submitted(k) == LET ins == SelectSeq(hist, LAMBDA h : h[1] = 0) IN ins[k][4]
Conservation == cur = Idle => \A k \in 1..n :
    Submitted(k) = filled[k] + killed[k] + (IF Ordinal(k) THEN active[k - 1].qty ELSE 0)
FokAllOrNothing == cur = Idle => \A k \in 1..n :
    LET ins == SelectSeq(hist, LAMBDA h : h[1] = 0) IN ins[k][5] = FOK => filled[k] \in {0, Submitted(k)} /\ ~Ordinal(k)
IocNeverRests == cur = Idle => \A k \in 1..n :
    LET ins == SelectSeq(hist, LAMBDA h : h[1] = 0) IN ins[k][5] # GTC => ~Ordinal(k)
=============================================================================
