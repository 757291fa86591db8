------------------------------- MODULE Walras_MC -------------------------------
(* Rounds of a Walrasian market with affine demands for one property: prices in rational arithmetic, every balanced rounding. *)
EXTENDS Walras, TLC, Json
CONSTANTS People, Ws, Ss, Lot, Value, Long0, Rounds, Emit
VARIABLES pos, cash, round, hist, legs, idle
mcvars == <<wvars, pos, cash, round, hist, legs, idle>>
P == 1
MCInit == /\ quotes = (P :> <<Value, Lot>>) /\ members = People /\ quoted = 0 /\ pos = [m \in People |-> <<Long0, 0>>]
          /\ cash = [m \in People |-> 0] /\ round = 0 /\ hist = <<>> /\ legs = 0 /\ idle = TRUE
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o AsSeq(S \ {x})
\* units demanded, in thousandths, at the price n / d cents a unit
Units(w, s, n, d) == Trunc(w * d * 1000, n) - s * 1000
Order(m, w, s, n, d) == [from |-> m, sent |-> round, lines |-> <<[p |-> P, kind |-> "a", w |-> w, s |-> s, c |-> 0,
                         long |-> pos[m][1], short |-> pos[m][2], u |-> Units(w, s, n, d)]>>]
\* balanced roundings: sequences over the participants
Roundings(ls) == LET n == Len(ls)
                     sl == Slack(ls)
                 IN {f \in [1..n -> UNION {(Whole(ls[k].x.u) - sl)..(Whole(ls[k].x.u) + sl) : k \in 1..n}] :
                       /\ \A k \in 1..n : Abs(f[k] - Whole(ls[k].x.u)) <= sl
                       /\ Sum(f, n) = 0}
Trade == /\ round < Rounds
         /\ \E who \in (SUBSET People) \ {{}} : \E w \in [who -> Ws] : \E s \in [who -> Ss] :
              LET ms == AsSeq(who)
                  W == Sum([k \in 1..Len(ms) |-> w[ms[k]]], Len(ms))
                  S == Sum([k \in 1..Len(ms) |-> s[ms[k]]], Len(ms))
              IN /\ W > 0 /\ S > 0
                 /\ W * Lot <= BREAK * quotes[P][1] * S /\ BREAK * W * Lot >= quotes[P][1] * S      \* the clearing price is within the circuit breaker
                 /\ LET os == [k \in 1..Len(ms) |-> Order(ms[k], w[ms[k]], s[ms[k]], W, S)]
                        ls == LinesOf(os, P)
                        new == CHOOSE x \in NewValues(os, P) : \A y \in NewValues(os, P) : x >= y
                    IN /\ Affine(os) /\ Roundings(ls) # {}
                       /\ \E f \in Roundings(ls) :
                           /\ pos' = [m \in People |-> IF m \in who THEN LET k == CHOOSE j \in 1..Len(ms) : ms[j] = m
                                                                             d == Settle(f[k], pos[m][1], pos[m][2])
                                                                         IN <<pos[m][1] + d[1], pos[m][2] + d[2]>> ELSE pos[m]]
                           /\ cash' = [m \in People |-> IF m \in who THEN LET k == CHOOSE j \in 1..Len(ms) : ms[j] = m IN
                                             cash[m] - (CHOOSE x \in Pays(f[k], pos[m][1], pos[m][2], new, new, Lot) : TRUE) ELSE cash[m]]
                           /\ legs' = legs + Sum([k \in 1..Len(ms) |-> Legs(f[k], 0, 0)], Len(ms))
                       /\ quotes' = (P :> <<new, Lot>>) /\ quoted' = QuoteTime(os, round)
                       /\ idle' = (\A k \in 1..Len(ls) : Abs(ls[k].x.u) < 1000)
                       /\ hist' = Append(hist, [k \in 1..Len(ms) |-> [m |-> ms[k], w |-> w[ms[k]], s |-> s[ms[k]]]])
         /\ round' = round + 1 /\ UNCHANGED members
MCSpec == MCInit /\ [][Trade]_mcvars
view == <<wvars, pos, cash, round, legs>>
RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumSet(f, S \ {x})
\* units are neither created nor destroyed: what is short was lent
Conserved == SumSet([m \in People |-> pos[m][1] - pos[m][2]], People) = Cardinality(People) * Long0
OneSided == \A m \in People : pos[m][1] >= 0 /\ pos[m][2] >= 0 /\ (pos[m][1] = 0 \/ pos[m][2] = 0)
\* cash is conserved up to the rounding of every payment
CashConserved == Abs(SumSet(cash, People)) <= legs
Breaker == [][quotes'[P][1] <= BREAK * quotes[P][1] /\ quotes'[P][1] * (BREAK + 1) + BREAK >= quotes[P][1] /\ quotes'[P][1] >= 1]_mcvars
\* a price that clears within rounding: nobody is served more than one unit away from the demand, rounded, unless the market is thin
Forward == [][quoted' > quoted /\ quoted' = round + 1]_mcvars
EmitTests == (Emit /\ Len(hist') = Rounds) => PrintT(<<"TEST", ToJson(hist')>>)
================================================================================
