-------------------------------- MODULE Maker_MC -------------------------------
EXTENDS Maker, Json, TLC
CONSTANTS Mids, Stocks, Times, Sigmas, Gammas, Rates, Dens, Emit
VARIABLE seen
Pars == [mid : Mids, long : Stocks, short : Stocks, t : Times, sig : Sigmas, g : Gammas, kk : Rates, den : Dens]
Shaped(p) == LET s == Shape([p EXCEPT !.mid = I(p.mid)]) IN [p |-> p, bid |-> Sub(s[1], s[2]), ask |-> Add(s[1], s[2]), scale |-> s[3]]
MCInit == par \in Pars /\ par.t = 0 /\ par.long = 0 /\ par.short = 0 /\ seen = Shaped(par)
\* the market maker trades, and time passes
Buy == \E n \in Stocks : n > par.long /\ par' = [par EXCEPT !.long = n]
Sell == \E n \in Stocks : n > par.short /\ par' = [par EXCEPT !.short = n]
Pass == \E t \in Times : t > par.t /\ par' = [par EXCEPT !.t = t]
MCNext == (Buy \/ Sell \/ Pass) /\ seen' = Shaped(par')
MCSpec == MCInit /\ [][MCNext]_<<par, seen>>
\* there is always something between the quotes, and there are quotes in whole units
Straddle == Less(seen.bid, seen.ask)
\* a maker that does not hold anything quotes around the market's price, so does one at the end of the session
Flat == (par.long = par.short \/ par.t = 8) => Add(seen.bid, seen.ask) = Mul(I(2 * par.mid), seen.scale)
\* the scale depends on neither inventory nor time: quotes before and after are comparable
Lean == [][LET d == seen.scale = seen'.scale IN
             /\ d
             /\ (par.t = par'.t => Sub(seen.ask, seen.bid) = Sub(seen'.ask, seen'.bid))                  \* inventory moves the quotes and not the spread
             /\ (par'.long > par.long => Leq(seen'.bid, seen.bid) /\ Leq(seen'.ask, seen.ask))
             /\ (par'.short > par.short => Leq(seen.bid, seen'.bid) /\ Leq(seen.ask, seen'.ask))
             /\ (par'.t > par.t => Leq(Sub(seen'.ask, seen'.bid), Sub(seen.ask, seen.bid)))]_<<par, seen>>
EmitTests == Emit => PrintT(<<"TEST", ToJson(par')>>)
================================================================================
