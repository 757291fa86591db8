------------------------------ MODULE Dividend_MC ------------------------------
EXTENDS Dividend, Json
CONSTANTS Holders, End, Pols, Changes, Emit
Companies == {1}
VARIABLES now, phase, wakeC, wakeH, plan, cur, hold, told, sent, held, scen
mvars == <<dvars, now, phase, wakeC, wakeH, plan, cur, hold, told, sent, held, scen>>
Dates == 0..End
Policy == {[ann |-> x[1], ex |-> x[2], pay |-> x[3], terms |-> 0] : x \in {y \in Dates \X Dates \X Dates : y[1] <= y[2] /\ y[2] <= y[3]}}
Plans == {<<p>> : p \in Policy} \cup (IF Pols < 2 THEN {} ELSE {x \in Policy \X Policy : x[1].ann < x[2].ann /\ x[1].ex < x[2].ex})
Amounts == {<<>>, <<1>>, <<2>>}
\* scen: what the test has to reproduce: plan, registered holders, initial holdings, changes of holdings
MCInit == \E pl \in Plans : \E r \in SUBSET Holders : \E ho \in [Holders -> Amounts] : \E wh \in [Holders -> {0} \cup Dates] :
  /\ Init0([c \in Companies |-> r], Holders)
  /\ now = 0 /\ phase = "company" /\ wakeC = 0 /\ wakeH = wh /\ plan = pl /\ cur = 1 /\ hold = ho
  /\ told = [x \in (DOMAIN pl) \X Holders |-> 0] /\ sent = [h \in Holders |-> <<>>] /\ held = [h \in Holders |-> ho[h] # <<>>]
  /\ scen = <<pl, r, ho, wh>>
Up == IF cur <= Len(plan) THEN <<plan[cur]>> ELSE None
Min(a, b) == IF a < b THEN a ELSE b
Company ==
  /\ phase = "company" /\ phase' = "holders"
  /\ IF wakeC > now THEN UNCHANGED <<dvars, wakeC, cur, told>>
     ELSE /\ CompanyActs(1, now, End, Up)
          /\ told' = [x \in DOMAIN told |-> told[x] + Cardinality({m \in post' \ post : m.to = x[2] /\ m.pol = plan[x[1]]})]
          /\ \E ret \in Dates : /\ GoodReturn(now, End, Up, ret)
             \* the model of the company: the next policy becomes the upcoming one once the payable date has been reached
             /\ cur' = (IF Up # None /\ now >= Up[1].pay THEN cur + 1 ELSE cur)
             /\ wakeC' = (IF cur' # cur /\ now < End THEN Min(ret, now + 1) ELSE ret)
  /\ UNCHANGED <<now, wakeH, plan, hold, sent, held, scen>>
Due(h) == wakeH[h] <= now \/ Letters(h) # {}
Hold(h) == IF hold[h] = <<>> THEN <<>> ELSE (1 :> hold[h][1])
HolderStep(h) ==
  /\ phase = "holders" /\ Due(h) /\ (Letters(h) # {} \/ wakeH[h] <= now)
  /\ HolderActs(h, now, End, Letters(h), Hold(h))
  /\ LET o == Owed(h, now, End, Letters(h), Hold(h)) IN sent' = [sent EXCEPT ![h] = [d \in DOMAIN @ \cup o |-> At(@, d) + (IF d \in o THEN 1 ELSE 0)]]
  /\ \E w \in (now + 1)..(End + 1) : wakeH' = [wakeH EXCEPT ![h] = w]
  /\ \E n \in (IF Changes THEN Amounts ELSE {hold[h]}) : hold' = [hold EXCEPT ![h] = n] /\ held' = [held EXCEPT ![h] = @ /\ n # <<>>]
  /\ UNCHANGED <<now, phase, wakeC, plan, cur, told, scen>>
Tick == /\ phase = "holders" /\ \A h \in Holders : ~Due(h)
        /\ CompanyReceives(1, slips[1])
        /\ LET ws == {w \in {wakeC} \cup {wakeH[h] : h \in Holders} : w > now} IN
           /\ ws # {} /\ now < End
           /\ now' = Min(End, CHOOSE w \in ws : \A v \in ws : w <= v)
        /\ phase' = "company" /\ UNCHANGED <<wakeC, wakeH, plan, cur, hold, told, sent, held, scen>>
MCNext == Company \/ Tick \/ \E h \in Holders : HolderStep(h)
MCSpec == MCInit /\ [][MCNext]_mvars
OnceEach == \A x \in DOMAIN told : told[x] <= 1 /\ (told[x] = 1 => x[2] \in reg[1] /\ now >= plan[x[1]].ann)
\* on the date when the policy is the upcoming one, later when it had to wait for the policy before it
Announced == \A i \in DOMAIN plan : phase = "holders" /\ now >= plan[i].ann /\ (i = 1 \/ now > plan[i - 1].pay) => \A h \in reg[1] : told[<<i, h>>] = 1
OnePerDate == \A h \in Holders : \A d \in DOMAIN sent[h] : sent[h][d] <= 1 /\ \E i \in DOMAIN plan : plan[i].ex = d[1] /\ h \in reg[1]
\* a shareholder that held shares throughout has billed the company by the ex-dividend date it was told of in time
Billed == \A h \in reg[1] : \A i \in DOMAIN plan : phase = "holders" /\ held[h] /\ ~Due(h) /\ told[<<i, h>>] = 1 /\ (i = 1 \/ plan[i - 1].pay < plan[i].ann) =>
             At(sent[h], <<plan[i].ex, 1>>) = 1
EmitTests == IF Emit /\ now = 0 /\ phase = "company" THEN PrintT(<<"TEST", ToJson(scen)>>) ELSE TRUE
================================================================================
