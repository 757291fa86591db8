---------------------------- MODULE CheckDigits_MC -----------------------------
(* Codes near a base code of each kind: every substitution of symbols at up to MaxOps positions. *)
EXTENDS CheckDigits, FiniteSets, TLC, Json
CONSTANTS Symbols, MaxOps, Emit
VARIABLES kind, body, n
mcvars == <<register, kind, body, n>>
Base(k) == CASE k = "isin" -> <<85, 83, 48, 51, 55, 56, 51, 51, 49, 48, 48>>
             [] k = "cusip" -> <<54, 56, 51, 56, 57, 88, 49, 48>>
             [] k = "sedol" -> <<66, 48, 89, 66, 75, 76>>
             [] k = "lei" -> <<50, 49, 51, 56, 48, 48, 87, 83, 71, 73, 73, 90, 67, 88, 70, 49, 80, 53>>
MCInit == register = <<>> /\ kind \in Kinds /\ body = Base(kind) /\ n = 0
MCNext == /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED kind
          /\ \E i \in 1..Len(body) : \E c \in Symbols : c # body[i] /\ Admissible(kind, [body EXCEPT ![i] = c]) /\ body' = [body EXCEPT ![i] = c]
          /\ Enter(kind, body', FALSE, FALSE)
MCSpec == MCInit /\ [][MCNext]_mcvars
view == <<kind, body, n>>
\* both statements of the standard agree, and exactly one choice of check digits is valid
Agree == Valid(kind, Complete(kind, body))
TwoDigits == {<<48 + a, 48 + b>> : a \in 0..9, b \in 0..9}
Unique == kind # "lei" => Cardinality({c \in 48..57 : Valid(kind, body \o <<c>>)}) = 1
\* of the two-digit numbers 02..98, which the standard allows
UniqueLei == kind = "lei" => Lei(body) \in 2..98 /\ Cardinality({k \in 2..98 : Valid(kind, body \o <<48 + (k \div 10), 48 + (k % 10)>>)}) = 1
\* a wrong digit is noticed (a wrong letter always is in the LEI only)
Noticed == [][\A i \in 1..Len(body) : body'[i] # body[i] /\ IsDigit(body'[i]) /\ IsDigit(body[i]) => CheckSymbols(kind, body') # CheckSymbols(kind, body)]_mcvars
NoticedLei == [][kind = "lei" /\ (\A i \in 1..Len(body) : IsDigit(body'[i]) <=> IsDigit(body[i])) => CheckSymbols(kind, body') # CheckSymbols(kind, body)]_mcvars
RefusesWrong == \A c \in 48..57 : kind # "lei" => (ENABLED (Enter(kind, body \o <<c>>, TRUE, TRUE) /\ register' # register) <=> <<c>> = CheckSymbols(kind, body))
EmitTests == Emit => PrintT(<<"TEST", ToJson([k |-> kind, s |-> body'])>>)
================================================================================
