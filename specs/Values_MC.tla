------------------------------- MODULE Values_MC -------------------------------
(* Small registers: every sequence of operations; laws the operations obey. *)
EXTENDS Values, FiniteSets, TLC, Json
CONSTANTS QMax, MaxOps, Emit
VARIABLES hist, start
mcvars == <<qs, ps, hist, start>>
Small == {Int2Big(n) : n \in 0..QMax}
Cur == {"USD", "EUR"}
Signed == {Int2Big(n) : n \in (0 - QMax)..QMax}
\* at most four decimal digits here
SmallInt(b) == IF b = Zero THEN 0 ELSE b[1] * b[2][1]
MCInit == /\ qs \in [1..2 -> Small]
          /\ ps \in [1..2 -> [v : Signed, c : Cur, l : {0, 1, 10}]]
          /\ ps[1].c = "USD" /\ hist = <<>>
          /\ start = IF Emit THEN [q |-> [i \in 1..2 |-> SmallInt(qs[i])], p |-> [i \in 1..2 |-> <<SmallInt(ps[i].v), ps[i].c, ps[i].l>>]] ELSE <<>>
\* keeps the exploration finite
Fits(v) == Leq(Abs(v), Int2Big(3 * QMax))
QOp == \E op \in {"add", "sub", "mul", "inc", "dec"}, i, j \in 1..2 :
         LET r == QResult(op, qs[i], qs[j]) IN
         /\ (op \in {"inc", "dec"}) => j = 1
         /\ r # Refused => Fits(r[1])
         /\ qs' = IF r = Refused THEN qs ELSE [qs EXCEPT ![i] = r[1]]
         /\ UNCHANGED ps /\ hist' = Append(hist, <<"q", op, i, j>>)
POp == \E op \in {"add", "sub", "mul"}, i, j \in 1..2 :
         LET r == PResult(op, ps[i], ps[j]) IN
         /\ r # Refused => Fits(r[1].v)
         /\ ps' = IF r = Refused THEN ps ELSE [ps EXCEPT ![i] = r[1]]
         /\ UNCHANGED qs /\ hist' = Append(hist, <<"p", op, i, j>>)
MCNext == Len(hist) < MaxOps /\ (QOp \/ POp) /\ UNCHANGED start
MCSpec == MCInit /\ [][MCNext]_mcvars
view == <<qs, ps, start, IF Emit THEN hist ELSE <<Len(hist)>>>>
\* laws
NonNegative == \A i \in 1..2 : qs[i][1] >= 0
SameKind == ps[1].c = "USD" /\ \A i \in 1..2 : ps[i].c \in Cur /\ ps[i].l \in {0, 1, 10}
Trichotomy == \A i, j \in 1..2 : Comparable(ps[i], ps[j]) =>
                Cardinality({op \in {"lt", "eq", "gt"} : Order(op, ps[i], ps[j]) = <<TRUE>>}) = 1
Guarded == \A i, j \in 1..2 : ~Comparable(ps[i], ps[j]) => /\ \A op \in {"lt", "gt", "le", "ge"} : Order(op, ps[i], ps[j]) = Refused
                                                           /\ Order("eq", ps[i], ps[j]) # <<TRUE>>
                                                           /\ \A op \in {"add", "sub", "mul"} : PResult(op, ps[i], ps[j]) = Refused
\* division into parts exists and is unique (for the small numbers), and so is the rounded quotient
Parts == \A k \in 1..3 : Cardinality({s \in [1..k -> Small] : IsDivision(qs[1], k, s)}) = (IF Leq(qs[1], Int2Big(QMax)) THEN 1 ELSE 0)
                         \/ Less(Int2Big(QMax), qs[1])
Quotient == ps[2].v # Zero => \E z \in {Int2Big(n) : n \in (0 - 3 * QMax)..(3 * QMax)} : IsQuotient(ps[1].v, ps[2].v, z)
Inverse == \A i, j \in 1..2 : Sub(Add(ps[i].v, ps[j].v), ps[j].v) = ps[i].v /\ Add(qs[i], qs[j]) = Add(qs[j], qs[i])
EmitTests == (Emit /\ Len(hist') = MaxOps) => PrintT(<<"TEST", ToJson([h |-> hist', s |-> start])>>)
================================================================================
