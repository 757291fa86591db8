-------------------------------- MODULE Exchange --------------------------------
(* A centralized exchange: participants send requests, the exchange runs one order book per instrument, answers every report
   to the owner of the order concerned and serves market data to subscribers.  One activation (Act) handles a sequence of
   requests; `sent' is what the exchange has put in its outbox by the end of it, as the specification demands it.        *)
EXTENDS Books
CONSTANT Props
VARIABLES
  cfg,       \* [kind, lo, hi, lot] of all books
  inst,      \* instruments that have a book
  traded,    \* instruments that participants bring a supply of
  books,     \* [instrument -> book]
  subs,      \* [instrument -> [subscriber -> depth]]
  pos,       \* {<<instrument, participant, supply>>} from logon to logout
  sent       \* exec: <<to, instrument, report, order>>; data: <<to, instrument, depth, trades, bid, ask, due>>
vars == <<cfg, inst, traded, books, subs, pos, sent>>
G(p, c) == (p \in Props => c) = TRUE      \* evaluated as a condition: no branching on its disjunctions
NoMessages == [exec |-> <<>>, data |-> <<>>]
Init0(c, i, t) == /\ cfg = c /\ inst = i /\ traded = t /\ books = [x \in i |-> EmptyBook] /\ subs = [x \in i \cup t |-> <<>>]
                  /\ pos = {} /\ sent = NoMessages

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o SetSeq(S \ {x})
Trades(reps) == LET T == SelectSeq(reps, LAMBDA r : r.state = Matched /\ r.id = NONE) IN Now([k \in 1..Len(T) |-> <<T[k].price, T[k].qty>>])
\* the messages caused by a request that turns book b of instrument t into x.b with reports x.reps
Data(s, t, b, x) == LET S == SetSeq(DOMAIN s.subs[t])
                        tr == Trades(x.reps)
                        moved == Best(b, 0) # Best(x.b, 0) \/ Best(b, 1) # Best(x.b, 1)
                    IN [k \in 1..Len(S) |-> <<S[k], t, s.subs[t][S[k]], tr, Best(x.b, 0), Best(x.b, 1),
                                              IF s.subs[t][S[k]] = 0 THEN tr # <<>> ELSE tr # <<>> \/ moved>>]
Answer(s, t, b, x, o) == [s EXCEPT !.books[t] = x.b,
                                   !.exec = @ \o [k \in 1..Len(x.reps) |-> <<x.reps[k].owner, t, x.reps[k], o>>],
                                   !.data = @ \o Data(s, t, b, x)]

(* Requests.  s: [books, subs, pos, exec, data, ids]; ids: identifiers of the placements still to come, as reported *)
Order(s, m) ==
  LET b == s.books[m.t]
      id == IF s.ids = <<>> THEN NONE ELSE Head(s.ids)
      o == [side |-> m.side, qty |-> m.qty, price |-> m.price, owner |-> m.owner]
  IN The({IF Places(x) THEN [Answer(s, m.t, b, Admit(x, m, id), o) EXCEPT !.ids = IF s.ids = <<>> THEN <<>> ELSE Tail(s.ids)]
     ELSE Answer(s, m.t, b, x, o) : x \in {Inserted(cfg, b, m)}})
Cancel(s, m) ==
  IF m.t \notin DOMAIN s.books THEN s
  ELSE LET b == s.books[m.t]
           x == CancelledOrder(b, m.id)
       IN Answer(s, m.t, b, x, IF x.reps = <<>> THEN <<>> ELSE LET r == x.reps[1] IN [side |-> r.side, qty |-> r.qty, price |-> r.price, owner |-> r.owner])
Snapshot(s, m, t) == IF t \notin DOMAIN s.books THEN s
                     ELSE [s EXCEPT !.data = Append(@, <<m.from, t, m.depth, <<>>, Best(s.books[t], 0), Best(s.books[t], 1), TRUE>>)]
Stream(s, m, t) == [s EXCEPT !.subs[t] = (m.from :> m.depth) @@ @]
Drop(f, a) == Now([x \in DOMAIN f \ {a} |-> f[x]])
Unsubscribe(s, m, t) == [s EXCEPT !.subs[t] = Drop(@, m.from)]
RECURSIVE OnEach(_, _, _)
OnEach(s, m, ts) == IF ts = <<>> THEN s
                    ELSE OnEach(CASE m.k = "snap" -> Snapshot(s, m, Head(ts)) [] m.k = "stream" -> Stream(s, m, Head(ts)) [] m.k = "unsub" -> Unsubscribe(s, m, Head(ts)),
                                m, Tail(ts))
Brought(m, t) == IF \E k \in 1..Len(m.supply) : m.supply[k][1] = t
                 THEN LET k == CHOOSE j \in 1..Len(m.supply) : m.supply[j][1] = t IN m.supply[k][2] ELSE 0
Logon(s, m) == [s EXCEPT !.pos = {p \in @ : p[2] # m.from \/ p[1] \notin traded} \cup {<<t, m.from, Brought(m, t)>> : t \in traded}]
Logout(s, m) == [s EXCEPT !.pos = {p \in @ : p[2] # m.from \/ p[1] \notin traded}, !.subs = Now([t \in DOMAIN @ |-> Drop(@[t], m.from)])]
Handle(s, m) ==
  CASE m.k = "order"  -> Order(s, m)
    [] m.k = "cancel" -> Cancel(s, m)
    [] m.k \in {"snap", "stream", "unsub"} -> OnEach(s, m, m.ts)
    [] m.k = "logon"  -> Logon(s, m)
    [] m.k = "logout" -> Logout(s, m)
RECURSIVE HandleAll(_, _)
HandleAll(s, ms) == IF ms = <<>> THEN s ELSE The({HandleAll(x, Tail(ms)) : x \in {Handle(s, Head(ms))}})
State(ids) == [books |-> books, subs |-> subs, pos |-> pos, exec |-> <<>>, data |-> <<>>, ids |-> ids]

\* one activation: the requests ms are handled in order
Act(ms, ids) ==
  \E s \in {HandleAll(State(ids), ms)} :
     /\ books' = s.books /\ subs' = s.subs /\ pos' = s.pos
     /\ sent' = [exec |-> s.exec, data |-> s.data]
     /\ UNCHANGED <<cfg, inst, traded>>
\* an order for an instrument without a book is refused with an error
Known(m) == m.k = "order" => m.t \in inst
Refuse == sent' = NoMessages /\ UNCHANGED <<cfg, inst, traded, books, subs, pos>>
=============================================================================
