------------------------------- MODULE Engine_MC --------------------------------
(* All interleavings of orders and cancellations over several instruments, and one generated test per explored step. *)
EXTENDS Engine, Json
CONSTANTS Inst, PriceSet, QtySet, Lifes, MaxOps, Emit
VARIABLES h, nxt, alone        \* alone[t]: the book that sees only the requests for instrument t
mcvars == <<vars, h, nxt, alone>>
MCInit == Init0([kind |-> "static", lo |-> 1, hi |-> 3, lot |-> 100]) /\ h = <<>> /\ nxt = 1 /\ alone = <<>>
A(t) == IF t \in DOMAIN alone THEN alone[t] ELSE [b |-> EmptyBook, r |-> <<>>]
DoInsert == \E t \in Inst : \E s \in {0, 1} : \E p \in PriceSet : \E q \in QtySet : \E life \in Lifes :
  LET o == [side |-> s, price |-> p, lot |-> 100, qty |-> q, owner |-> 10 * Len(h) + t, life |-> life]
      x == Inserted(cfg, A(t).b, o)
      y == IF Places(x) THEN Admit(x, o, nxt) ELSE x
  IN /\ Len(h) < MaxOps
     /\ Insert(t, o, nxt)
     /\ nxt' = nxt + 1
     /\ alone' = (t :> [b |-> y.b, r |-> A(t).r \o y.reps]) @@ alone
     /\ h' = Append(h, <<0, t, s, p, q, life>>)
\* the k-th request's order is cancelled, on its own instrument or on another
DoCancel == \E k \in 1..Len(h) : \E t \in Inst :
  LET x == CancelledOrder(A(t).b, k)
  IN /\ Len(h) < MaxOps /\ h[k][1] = 0
     /\ Cancel(t, k)
     /\ nxt' = nxt + 1
     /\ alone' = IF t \in DOMAIN alone THEN [alone EXCEPT ![t] = [b |-> x.b, r |-> @.r \o x.reps]] ELSE alone
     /\ h' = Append(h, <<1, t, k>>)
MCNext == DoInsert \/ DoCancel
MCSpec == MCInit /\ [][MCNext]_mcvars
view == <<books, alone, nxt, [k \in 1..Len(h) |-> h[k][1]]>>
Isolated == /\ DOMAIN alone = DOMAIN books
            /\ \A t \in DOMAIN books : books[t] = alone[t].b /\ reps[t] = alone[t].r
Emitted == IF Emit THEN PrintT(<<"TEST", ToJson(h')>>) ELSE TRUE
EmitTests == h' # h => Emitted
=============================================================================
