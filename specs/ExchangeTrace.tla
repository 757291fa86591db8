----------------------------- MODULE ExchangeTrace ------------------------------
(* E.ms: the requests of one activation; E.exec, E.data: what the exchange sent; E.books, E.pos: what it publishes.
   E.now: the time; latency[a]: the latency to participant a. *)
EXTENDS Exchange, Json, IOUtils
VARIABLES l, latency
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
TraceInit == l = 1 /\ latency = <<>> /\ Init0([kind |-> "none", lo |-> 0, hi |-> 0, lot |-> 1], {}, {})
To(s, a) == SelectSeq(s, LAMBDA x : x[1] = a)
ToOn(s, a, t) == SelectSeq(s, LAMBDA x : x[1] = a /\ x[2] = t)
SentTo(s, a) == SelectSeq(s, LAMBDA x : x.to = a)
SentToOn(s, a, t) == SelectSeq(s, LAMBDA x : x.to = a /\ x.t = t)
OnTime(x) == x.from = 0 /\ x.sent = E.now /\ x.to \in 1..Len(latency) /\ x.recv = E.now + latency[x.to]
\* reports: to every participant exactly those of its orders, in order, with the instrument
SameOrder(x, o) == o # <<>> => \A f \in {"side", "qty", "price", "owner"} : x[f] = o[f]
Reports(xs) ==
  /\ Len(E.exec) = Len(xs)
  /\ \A a \in {E.exec[k].to : k \in 1..Len(E.exec)} \cup {xs[k][1] : k \in 1..Len(xs)} :
       LET r == SentTo(E.exec, a)
           x == To(xs, a)
       IN /\ Len(r) = Len(x)
          /\ \A k \in 1..Len(x) : Agrees(r[k].rep, x[k][3]) /\ r[k].t = x[k][2] /\ SameOrder(r[k].order, x[k][4])
  /\ \A k \in 1..Len(E.exec) : OnTime(E.exec[k])
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Side(q) == IF q = NONE THEN <<>> ELSE <<q>>
Shows(r, x) == IF x[3] = 0 THEN r.bid = <<>> /\ r.ask = <<>> ELSE r.bid = Side(x[5]) /\ r.ask = Side(x[6])
\* market data: a subscriber sees every trade once and in order, and the quotes after the request in each message
MarketData(xs) ==
  /\ \A k \in 1..Len(E.data) : OnTime(E.data[k])
  /\ \A c \in {<<E.data[k].to, E.data[k].t>> : k \in 1..Len(E.data)} \cup {<<xs[k][1], xs[k][2]>> : k \in 1..Len(xs)} :
       LET r == SentToOn(E.data, c[1], c[2])
           x == ToOn(xs, c[1], c[2])
           due == SelectSeq(x, LAMBDA y : y[7])
       IN /\ Flat([k \in 1..Len(r) |-> r[k].trades]) = Flat([k \in 1..Len(x) |-> x[k][4]])
          /\ \A k \in 1..Len(r) : \E j \in 1..Len(x) : Shows(r[k], x[j]) /\ (r[k].trades # <<>> => x[j][4] # <<>>)
          /\ \A k \in 1..Len(r) : \E j \in 1..Len(x) : Shows(r[k], x[j]) /\ (x[j][3] = 0 => x[j][7])
          /\ Len(r) >= Len(due)
          /\ due # <<>> => Shows(r[Len(r)], x[Len(x)]) \/ ~x[Len(x)][7]
          /\ (Len(E.ms) = 1 /\ E.ms[1].k = "snap") => Len(r) = Len(due)
Published == /\ Len(E.books) = Cardinality(DOMAIN books') /\ {E.books[k].t : k \in 1..Len(E.books)} = DOMAIN books'
             /\ \A k \in 1..Len(E.books) : LET o == E.books[k] IN Publishes(books'[o.t], o)
             /\ Range(E.pos) = pos' /\ Len(E.pos) = Cardinality(pos')
Placements == LET P == SelectSeq(E.exec, LAMBDA x : x.rep.state = Placed) IN [k \in 1..Len(P) |-> P[k].rep.id]
TNew == /\ Is("new") /\ cfg' = [kind |-> E.kind, lo |-> E.lo, hi |-> E.hi, lot |-> E.lot]
        /\ inst' = Range(E.inst) /\ traded' = Range(E.traded)
        /\ books' = [x \in Range(E.inst) |-> EmptyBook] /\ subs' = [x \in 1..9 |-> <<>>]
        /\ pos' = {} /\ sent' = NoMessages /\ latency' = E.latency
TAct == Is("act") /\ (\A k \in 1..Len(E.ms) : Known(E.ms[k])) /\ Act(E.ms, Placements) /\ G("C10", Reports(sent'.exec) /\ MarketData(sent'.data) /\ Published) /\ UNCHANGED latency
TRefuse == Is("refused") /\ (\E k \in 1..Len(E.ms) : ~Known(E.ms[k])) /\ Refuse /\ G("C10", E.exec = <<>> /\ E.data = <<>> /\ Published) /\ UNCHANGED latency
TraceNext == TNew \/ TAct \/ TRefuse
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l, latency>>
TraceAccepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
