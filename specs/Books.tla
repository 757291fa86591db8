--------------------------------- MODULE Books ---------------------------------
(* Order books as values: what one request does to one book, and the reports it produces.  A book is
   [a |-> [identifier -> resting order], u |-> identifiers issued, n |-> arrivals]; a book's configuration c is
   [kind, lo, hi, lot] as in OrderBook.  Identifiers are chosen by the implementation, so that a placement yields PENDING
   as identifier and Admit puts the order into the book under the identifier that was reported.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NONE == -1
PENDING == -3
ANY == -4             \* a field that the specification leaves open
Buy == 0
GTC == 0
FOK == 1
IOC == 2
Invalid == 0  Cancelled == 1  Matched == 2  Placed == 3

\* the element of a singleton and a function as it is (their only use is to make TLC evaluate intermediate results once)
The(S) == CHOOSE x \in S : TRUE
Now(f) == f @@ <<>>
EmptyBook == [a |-> <<>>, u |-> {}, n |-> 0]
Ids(b, s) == {i \in DOMAIN b.a : b.a[i].side = s}
Better(s, p, q) == IF s = Buy THEN p > q ELSE p < q
Best(b, s) == IF Ids(b, s) = {} THEN NONE
              ELSE b.a[CHOOSE i \in Ids(b, s) : \A j \in Ids(b, s) : ~Better(s, b.a[j].price, b.a[i].price)].price
Crossing(b, o) == {i \in Ids(b, 1 - o.side) : ~Better(1 - o.side, o.price, b.a[i].price)}
First(b, S) == CHOOSE i \in S : \A j \in S \ {i} : \/ Better(b.a[i].side, b.a[i].price, b.a[j].price)
                                                   \/ b.a[i].price = b.a[j].price /\ b.a[i].seq < b.a[j].seq
Valid(c, o) == c.kind = "tree" \/ (o.qty > 0 /\ o.lot = c.lot /\ c.lo <= o.price /\ o.price <= c.hi)
RECURSIVE Total(_, _)
Total(b, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN b.a[i].qty + Total(b, S \ {i})
Report(state, side, qty, id, price, owner) == [state |-> state, side |-> side, qty |-> qty, id |-> id, price |-> price, owner |-> owner]
Min(x, y) == IF x < y THEN x ELSE y
Without(b, i) == [b EXCEPT !.a = Now([j \in DOMAIN b.a \ {i} |-> b.a[j]])]

RECURSIVE Fill(_, _, _, _)
Fill(b, o, rem, reps) ==
  IF rem = 0 \/ Crossing(b, o) = {} THEN [b |-> b, rem |-> rem, reps |-> reps]
  ELSE LET i == First(b, Crossing(b, o))
           m == b.a[i]
           q == Min(m.qty, rem)
       IN The({Fill(z, o, rem - q, reps \o <<Report(Matched, o.side, q, NONE, m.price, o.owner), Report(Matched, 1 - o.side, q, i, m.price, m.owner)>>)
               : z \in {IF q = m.qty THEN Without(b, i) ELSE [b EXCEPT !.a[i].qty = @ - q]}})

\* what the request to insert o does: the book and the reports in order
Inserted(c, b0, o) ==
  LET b == [b0 EXCEPT !.n = @ + 1] IN
  IF ~Valid(c, o) THEN [b |-> b, reps |-> <<Report(Invalid, o.side, o.qty, ANY, o.price, o.owner)>>]
  ELSE IF o.life = FOK /\ Total(b, Crossing(b, o)) < o.qty
  THEN [b |-> b, reps |-> <<Report(Cancelled, o.side, o.qty, ANY, ANY, o.owner)>>]
  ELSE LET f == Fill(b, o, o.qty, <<>>) IN
       IF f.rem = 0 THEN [b |-> f.b, reps |-> f.reps]
       ELSE IF o.life = GTC
       THEN [b |-> f.b, reps |-> Append(f.reps, Report(Placed, o.side, f.rem, PENDING, o.price, o.owner))]
       ELSE [b |-> f.b, reps |-> Append(f.reps, Report(Cancelled, o.side, f.rem, ANY, ANY, o.owner))]
Places(x) == x.reps # <<>> /\ x.reps[Len(x.reps)].id = PENDING
\* the rest of o, placed under identifier id
Admit(x, o, id) == LET r == x.reps[Len(x.reps)] IN
  [b |-> [x.b EXCEPT !.a = (id :> [side |-> o.side, price |-> o.price, qty |-> r.qty, owner |-> o.owner, seq |-> x.b.n]) @@ @,
                     !.u = @ \cup {id}],
   reps |-> [x.reps EXCEPT ![Len(x.reps)].id = id]]

CancelledOrder(b, id) ==
  IF id \notin DOMAIN b.a THEN [b |-> b, reps |-> <<>>]
  ELSE LET m == b.a[id] IN [b |-> Without(b, id), reps |-> <<Report(Cancelled, m.side, m.qty, id, m.price, m.owner)>>]

\* a recorded report agrees with an expected one
Agrees(r, x) == \A f \in {"state", "side", "qty", "id", "price", "owner"} : x[f] = ANY \/ r[f] = x[f]
AllAgree(rs, xs) == Len(rs) = Len(xs) /\ \A k \in 1..Len(xs) : Agrees(rs[k], xs[k])
Range(s) == {s[k] : k \in 1..Len(s)}
\* a book publishes its best quotes and its open orders
Publishes(b, o) == /\ o.bid = Best(b, Buy) /\ o.ask = Best(b, 1 - Buy)
                   /\ Len(o.orders) = Cardinality(DOMAIN b.a) /\ Range(o.orders) = DOMAIN b.a
=============================================================================
