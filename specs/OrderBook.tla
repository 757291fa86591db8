------------------------------- MODULE OrderBook -------------------------------
(* A limit order book seen through its execution reports.  One operation on the book (Insert or Cancel) opens, a
   sequence of reports follows (one action each, in the order in which the code emits them), and the operation closes,
   after which the book publishes its best bid, best ask and open orders.

   Guards are labelled with the property that demands them; `Props' selects which labels are enforced, so that the
   conformance check of one property rejects exactly the behaviours that break that property.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Props

VARIABLES
  cfg,      \* [kind, lo, hi, lot] configuration of the book under observation
  active,   \* [id -> order] orders that rest in the book
  used,     \* identifiers ever issued
  cur,      \* operation in progress
  half,     \* the aggressor's half of a trade, waiting for the resting order's half
  clock     \* arrival counter, gives time priority

bookvars == <<cfg, active, used, cur, half, clock>>

G(p, c) == p \in Props => c
NONE == -1
Buy == 0
Sell == 1
GTC == 0
FOK == 1
IOC == 2
Invalid == 0  Cancelled == 1  Matched == 2  Placed == 3   \* report states

Idle == [op |-> "idle"]
NoHalf == [qty |-> 0, price |-> 0]

RECURSIVE SumQty(_)
SumQty(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN active[x].qty + SumQty(S \ {x})

Ids(s) == {i \in DOMAIN active : active[i].side = s}
Prices(s) == {active[i].price : i \in Ids(s)}
Best(s) == IF Ids(s) = {} THEN NONE
           ELSE IF s = Buy THEN CHOOSE p \in Prices(s) : \A q \in Prices(s) : p >= q
           ELSE CHOOSE p \in Prices(s) : \A q \in Prices(s) : p <= q
Within(side, limit, price) == IF side = Buy THEN price <= limit ELSE price >= limit
Better(side, p, q) == IF side = Buy THEN p > q ELSE p < q       \* p has priority over q among resting orders of `side'
Crossing(side, limit) == {i \in Ids(1 - side) : Within(side, limit, active[i].price)}
Available(side, limit) == SumQty(Crossing(side, limit))
Priority(i, j) == \/ Better(active[i].side, active[i].price, active[j].price)
                  \/ active[i].price = active[j].price /\ active[i].seq < active[j].seq

Valid(o) == cfg.kind = "tree" \/ (o.qty > 0 /\ o.lot = cfg.lot /\ cfg.lo <= o.price /\ o.price <= cfg.hi)

Init0(c) == cfg = c /\ active = <<>> /\ used = {} /\ cur = Idle /\ half = NoHalf /\ clock = 0

(*----------------------------------------------------- actions -----------------------------------------------------*)
Insert(o) ==                                  \* o: [side, price, lot, qty, owner, life]
  /\ cur = Idle
  /\ cur' = [op |-> "insert", o |-> o, rem |-> o.qty, done |-> o.qty = 0 /\ Valid(o), traded |-> FALSE,
             avail |-> IF Valid(o) THEN Available(o.side, o.price) ELSE 0]
  /\ clock' = clock + 1
  /\ UNCHANGED <<cfg, active, used, half>>

\* the aggressor's report of a trade
TakerFill(r) ==
  /\ cur.op = "insert" /\ half = NoHalf
  /\ G("C01", ~cur.done /\ r.qty > 0 /\ r.qty <= cur.rem /\ r.side = cur.o.side /\ r.owner = cur.o.owner)
  /\ G("C03", Within(cur.o.side, cur.o.price, r.price))
  /\ G("C06", cur.o.life = FOK => cur.avail >= cur.o.qty)
  /\ G("C07", Valid(cur.o))
  /\ half' = [qty |-> r.qty, price |-> r.price]
  /\ cur' = [cur EXCEPT !.traded = TRUE]
  /\ UNCHANGED <<cfg, active, used, clock>>

\* the resting order's report of the same trade
MakerFill(r) ==
  /\ cur.op = "insert"
  /\ G("C01", /\ half # NoHalf /\ r.qty = half.qty /\ r.price = half.price
              /\ r.id \in DOMAIN active
              /\ r.side = 1 - cur.o.side /\ active[r.id].side = r.side
              /\ active[r.id].owner = r.owner /\ r.qty <= active[r.id].qty)
  /\ r.id \in DOMAIN active =>
        /\ G("C03", half # NoHalf => half.price = active[r.id].price)  \* both parties are told the resting price
        /\ G("C03", r.price = active[r.id].price /\ Within(cur.o.side, cur.o.price, active[r.id].price))
        /\ G("C02", \A j \in Ids(active[r.id].side) \ {r.id} : Priority(r.id, j))
        /\ G("C02", active[r.id].qty > r.qty => cur.rem = r.qty)     \* an order is exhausted before the next is touched
        /\ G("C07", r.price = active[r.id].price)
  /\ half' = NoHalf
  /\ cur' = [cur EXCEPT !.rem = @ - r.qty, !.done = (cur.rem = r.qty)]
  /\ active' = IF r.id \notin DOMAIN active THEN active
               ELSE IF active[r.id].qty <= r.qty THEN [i \in DOMAIN active \ {r.id} |-> active[i]]
               ELSE [active EXCEPT ![r.id].qty = @ - r.qty]
  /\ UNCHANGED <<cfg, used, clock>>

\* the (rest of the) order is placed in the book
Place(r) ==
  /\ cur.op = "insert" /\ half = NoHalf
  /\ G("C01", /\ ~cur.done /\ cur.rem > 0 /\ r.qty = cur.rem
              /\ r.side = cur.o.side /\ r.owner = cur.o.owner)
  /\ G("C03", Crossing(cur.o.side, cur.o.price) = {})
  /\ G("C05", r.id \notin used /\ r.id # NONE)
  /\ G("C06", cur.o.life = GTC)
  /\ G("C07", Valid(cur.o) /\ r.price = cur.o.price)
  /\ cur' = [cur EXCEPT !.done = TRUE]
  /\ used' = used \cup {r.id}
  /\ active' = (r.id :> [side |-> cur.o.side, price |-> cur.o.price, qty |-> r.qty, owner |-> cur.o.owner,
                         seq |-> clock]) @@ active
  /\ UNCHANGED <<cfg, half, clock>>

\* the (rest of the) incoming order is cancelled without resting
Kill(r) ==
  /\ cur.op = "insert" /\ half = NoHalf
  /\ G("C01", ~cur.done /\ cur.rem > 0 /\ r.qty = cur.rem /\ r.side = cur.o.side /\ r.owner = cur.o.owner)
  /\ G("C06", \/ cur.o.life = IOC /\ Crossing(cur.o.side, cur.o.price) = {}
              \/ cur.o.life = FOK /\ ~cur.traded /\ cur.avail < cur.o.qty)
  /\ G("C06", r.qty = cur.rem)
  /\ G("C07", Valid(cur.o))
  /\ cur' = [cur EXCEPT !.done = TRUE, !.rem = 0]
  /\ UNCHANGED <<cfg, active, used, half, clock>>

Reject(r) ==
  /\ cur.op = "insert" /\ half = NoHalf
  /\ G("C01", ~cur.done /\ ~cur.traded)
  /\ G("C07", /\ ~Valid(cur.o) /\ r.qty = cur.o.qty /\ r.side = cur.o.side /\ r.owner = cur.o.owner
              /\ r.price = cur.o.price)
  /\ cur' = [cur EXCEPT !.done = TRUE, !.rem = 0]
  /\ UNCHANGED <<cfg, active, used, half, clock>>

Cancel(id) ==
  /\ cur = Idle
  /\ cur' = [op |-> "cancel", id |-> id, live |-> id \in DOMAIN active]
  /\ UNCHANGED <<cfg, active, used, half, clock>>

CancelReport(r) ==
  /\ cur.op = "cancel"
  /\ G("C05", /\ cur.live /\ r.id = cur.id /\ r.id \in DOMAIN active
              /\ r.qty = active[r.id].qty /\ r.side = active[r.id].side /\ r.price = active[r.id].price
              /\ r.owner = active[r.id].owner)
  /\ G("C01", r.id \in DOMAIN active /\ r.qty = active[r.id].qty)
  /\ active' = [i \in DOMAIN active \ {r.id} |-> active[i]]
  /\ UNCHANGED <<cfg, used, cur, half, clock>>

\* the operation returns; obs is what the book publishes: [bid, ask, orders]
Return(obs) ==
  /\ cur # Idle
  /\ G("C01", half = NoHalf)
  /\ G("C01", cur.op = "insert" => cur.done)
  /\ G("C06", cur.op = "insert" /\ cur.o.life # GTC => cur.done)
  /\ G("C07", cur.op = "insert" => cur.done)
  /\ G("C05", cur.op = "cancel" => cur.id \notin DOMAIN active)
  /\ G("C05", cur.op = "cancel" => \A k \in 1..Len(obs.orders) : obs.orders[k] # cur.id)      \* nor is it listed
  /\ G("C03", Best(Buy) = NONE \/ Best(Sell) = NONE \/ Best(Buy) < Best(Sell))
  /\ G("C03", obs.bid = NONE \/ obs.ask = NONE \/ obs.bid < obs.ask)
  /\ G("C04", obs.bid = Best(Buy) /\ obs.ask = Best(Sell))
  /\ G("C04", Len(obs.orders) = Cardinality(DOMAIN active) /\ {obs.orders[k] : k \in 1..Len(obs.orders)} = DOMAIN active)
  /\ G("C05", {obs.orders[k] : k \in 1..Len(obs.orders)} \subseteq used)
  /\ G("C07", obs.bid \in Prices(Buy) \cup {NONE} /\ obs.ask \in Prices(Sell) \cup {NONE})
  /\ cur' = Idle /\ half' = NoHalf
  /\ UNCHANGED <<cfg, active, used, clock>>

(*--------------------------------------------------- state invariants ----------------------------------------------*)
NotCrossed == cur = Idle => (Best(Buy) = NONE \/ Best(Sell) = NONE \/ Best(Buy) < Best(Sell))
PositiveQuantities == \A i \in DOMAIN active : active[i].qty > 0
IssuedOnce == DOMAIN active \subseteq used
=============================================================================
