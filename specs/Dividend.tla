-------------------------------- MODULE Dividend -------------------------------
(* Companies announce their dividend policies to their shareholders, and shareholders bill the company with a record of the
   shares they hold once the ex-dividend date falls into the interval in which they are activated.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES reg,      \* [company -> the shareholders it has registered]
          done,     \* [company -> date of the latest announcement made, -1 if none]
          post,     \* announcements under way: [to, c, pol]
          pend,     \* [shareholder -> <<ex-dividend date, company>> not yet billed]
          slips     \* [company -> records under way to it, with the number of each]
dvars == <<reg, done, post, pend, slips>>
\* a policy is [ann |-> announcement date, ex |-> ex-dividend date, pay |-> payable date, terms |-> anything]
Init0(r, hs) == /\ reg = r /\ done = [c \in DOMAIN r |-> -1] /\ post = {} /\ pend = [h \in hs |-> {}] /\ slips = [c \in DOMAIN r |-> <<>>]
None == <<>>
\* activation of the company in [lo, hi); pol is None or <<the upcoming policy>>
IsNew(c, lo, pol) == pol # None /\ lo >= pol[1].ann /\ pol[1].ann > done[c]
Told(c, lo, pol) == IF IsNew(c, lo, pol) THEN {[to |-> h, c |-> c, pol |-> pol[1]] : h \in reg[c]} ELSE {}
\* when it asks to be activated again: never in the past, in time for the dates it waits for
GoodReturn(lo, hi, pol, ret) == /\ ret <= hi /\ (lo < hi => lo < ret)
                                /\ pol # None => (lo < pol[1].ann => ret <= pol[1].ann) /\ (lo < pol[1].pay => ret <= pol[1].pay)
CompanyActs(c, lo, hi, pol) == /\ post' = post \cup Told(c, lo, pol)
                               /\ done' = (IF IsNew(c, lo, pol) THEN [done EXCEPT ![c] = pol[1].ann] ELSE done)
                               /\ UNCHANGED <<reg, pend, slips>>
\* activation of a shareholder in [lo, hi] with holdings hold: [company -> shares of each class], having received got
Owed(h, lo, hi, got, hold) == {d \in pend[h] \cup {<<m.pol.ex, m.c>> : m \in got} : lo <= d[1] /\ d[1] <= hi /\ d[2] \in DOMAIN hold}
Letters(h) == {m \in post : m.to = h}
At(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
HolderActs(h, lo, hi, got, hold) ==
  LET owed == Owed(h, lo, hi, got, hold) IN
  /\ got \subseteq Letters(h) /\ post' = post \ got
  /\ pend' = [pend EXCEPT ![h] = (@ \cup {<<m.pol.ex, m.c>> : m \in got}) \ owed]
  /\ slips' = [c \in DOMAIN slips |-> LET n == Cardinality({d \in owed : d[2] = c}) r == [from |-> h, shares |-> hold[c]] IN
                                      IF n = 0 THEN slips[c] ELSE (r :> (At(slips[c], r) + n)) @@ slips[c]]
  /\ UNCHANGED <<reg, done>>
\* recs: [record -> number] the company has received
CompanyReceives(c, recs) == /\ \A r \in DOMAIN recs : recs[r] <= At(slips[c], r)
                            /\ slips' = [slips EXCEPT ![c] = [r \in {x \in DOMAIN @ : @[x] > At(recs, x)} |-> @[r] - At(recs, r)]]
                            /\ UNCHANGED <<reg, done, post, pend>>
================================================================================
