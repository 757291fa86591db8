------------------------------ MODULE Exchange_MC -------------------------------
(* All short histories of requests by a few participants; what the participants learn is compared with the truth. *)
EXTENDS Exchange, Json
CONSTANTS P, QtySet, PriceSet, Lifes, Kinds, MaxOps, Emit
VARIABLES h, nxt,
          acc,      \* [identifier or request -> <<owner, quantity the owner has left according to its reports>>]
          know      \* [<<participant, instrument>> -> quotes as last seen while informed of all changes]
mcvars == <<vars, h, nxt, acc, know>>
I == {1, 2}
MCInit == Init0([kind |-> "static", lo |-> 1, hi |-> 2, lot |-> 100], I, {1, 2, 3}) /\ h = <<>> /\ nxt = 1 /\ acc = <<>> /\ know = <<>>
\* what the owners make of their reports: the quantity left of every order that rests
RECURSIVE Read(_, _)
Read(f, xs) ==
  IF xs = <<>> THEN f
  ELSE LET x == Head(xs)[3]
           k == <<Head(xs)[2], x.id>>
       IN Read(CASE x.state = Placed -> (k :> <<Head(xs)[1], x.qty>>) @@ f
                 [] x.state = Matched /\ x.id # NONE -> IF k \in DOMAIN f THEN [f EXCEPT ![k][2] = @ - x.qty] ELSE f
                 [] x.state = Cancelled /\ x.id \notin {NONE, ANY} -> IF k \in DOMAIN f THEN [f EXCEPT ![k][2] = @ - x.qty] ELSE f
                 [] OTHER -> f, Tail(xs))
RECURSIVE Learn(_, _)
Learn(f, xs) ==
  IF xs = <<>> THEN f
  ELSE LET x == Head(xs) IN Learn(IF x[3] > 0 /\ x[7] /\ x[1] \in DOMAIN subs'[x[2]] THEN (<<x[1], x[2]>> :> <<x[5], x[6]>>) @@ f ELSE f, Tail(xs))
Streams(c) == c[1] \in DOMAIN subs'[c[2]] /\ subs'[c[2]][c[1]] > 0
Do(m, e) ==
  /\ Act(<<m>>, <<nxt>>)
  /\ nxt' = nxt + 1
  /\ acc' = Read(acc, sent'.exec)
  /\ LET g == Learn(know, sent'.data) IN know' = [c \in {d \in DOMAIN g : Streams(d)} |-> g[c]]
  /\ h' = Append(h, e)
MCOrder == "order" \in Kinds /\ \E t \in I : \E a \in P : \E s \in {0, 1} : \E p \in PriceSet : \E q \in QtySet : \E life \in Lifes :
  Do([k |-> "order", t |-> t, from |-> a, owner |-> a, side |-> s, price |-> p, lot |-> 100, qty |-> q, life |-> life], <<"O", t, a, a, s, p, q, life>>)
Placed0 == {k \in 1..Len(h) : h[k][1] = "O"}
MCCancel == "cancel" \in Kinds /\ \E k \in Placed0 : \E a \in P :
  Do([k |-> "cancel", t |-> h[k][2], from |-> a, id |-> k], <<"C", h[k][2], a, k>>)
MCData == \E kind \in Kinds \cap {"snap", "stream", "unsub"} : \E a \in P : \E d \in {0, 1} : \E t \in I :
  (kind = "unsub" => d = 0) /\ Do([k |-> kind, ts |-> <<t>>, from |-> a, depth |-> d], <<kind, t, a, d>>)
MCLog == \E kind \in Kinds \cap {"logon", "logout"} : \E a \in P :
  Do([k |-> kind, from |-> a, supply |-> <<<<1, Len(h) + 1>>, <<3, 5>>>>], <<kind, a>>)
MCNext == Len(h) < MaxOps /\ (MCOrder \/ MCCancel \/ MCData \/ MCLog)
MCSpec == MCInit /\ [][MCNext]_mcvars
view == <<books, subs, pos, acc, know, nxt, Placed0>>
(*---------------------------------------------------- design ------------------------------------------------------*)
\* the reports an owner gets are enough to know what it has in the books
OwnersKnow == /\ \A t \in I : \A id \in DOMAIN books[t].a : acc[<<t, id>>] = <<books[t].a[id].owner, books[t].a[id].qty>>
              /\ \A k \in DOMAIN acc : k[2] \notin DOMAIN books[k[1]].a => acc[k][2] = 0
\* a subscriber that has seen the quotes once is never out of date
SubscribersKnow == \A c \in DOMAIN know : know[c] = <<Best(books[c[2]], 0), Best(books[c[2]], 1)>>
NobodyElse == \A k \in 1..Len(sent.data) : sent.data[k][1] \in P /\ (\A j \in 1..Len(sent.exec) : sent.exec[j][1] = sent.exec[j][3].owner)
OncePerSession == \A a, b \in pos : (a[1] = b[1] /\ a[2] = b[2]) => a = b
EmitTests == (Emit /\ h' # h) => PrintT(<<"TEST", ToJson(h')>>)
=============================================================================
