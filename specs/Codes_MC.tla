-------------------------------- MODULE Codes_MC -------------------------------
EXTENDS Codes, CodeTables, Json, FiniteSets
CONSTANTS Alphabet, MaxLen, Most, Emit
VARIABLE text
\* the digests the library uses for currencies and countries
Digest(k, s) == IF k = "4217" THEN s[1] + 26 * s[2] + 676 * s[3] ELSE IF k = "3166" THEN s[1] + 26 * s[2] ELSE 0
Letters == 65..90
ASSUME Cardinality({Digest("3166", <<a, b>>) : a \in Letters, b \in Letters}) = 26 * 26
ASSUME Cardinality({Digest("4217", <<a, b, c>>) : a \in Letters, b \in Letters, c \in Letters}) = 26 * 26 * 26
\* the tables refer to each other
ASSUME \A c \in DOMAIN Tender : c \in DOMAIN CountryName /\ Tender[c] \in DOMAIN CurrencyName
ASSUME Cardinality({CurrencyName[c] : c \in DOMAIN CurrencyName}) = Cardinality(DOMAIN CurrencyName)
ASSUME Cardinality({CountryName[c] : c \in DOMAIN CountryName}) = Cardinality(DOMAIN CountryName)
ASSUME (Whole \cup Thousandths \cup TenThousandths) \subseteq DOMAIN CurrencyName
ASSUME \A m \in -9..9, k \in 0..3, den \in {1, 3, 100} : LET p == Pow2(k) IN
         /\ Abs(Towards(m, k, den)) * p \leq Abs(m) * den /\ Abs(m) * den < (Abs(Towards(m, k, den)) + 1) * p
         /\ Abs(Away(m, k, den)) * p \geq Abs(m) * den /\ (Abs(Away(m, k, den)) - 1) * p < Abs(m) * den
MCInit == text = <<>> /\ known = {}
Type == Len(text) < MaxLen /\ \E c \in Alphabet : text' = Append(text, c) /\ known' = known
Register == \E k \in Kinds : IsCode(k, text) /\ Learn([k |-> k, s |-> text, h |-> Digest(k, text), id |-> ""]) /\ text' = <<>>
MCNext == Type \/ Register
MCSpec == MCInit /\ [][MCNext]_<<known, text>>
\* no code is ever refused because of one registered before
NeverClashes == \A k \in Kinds : IsCode(k, text) => Consistent([k |-> k, s |-> text, h |-> Digest(k, text), id |-> ""])
Codes3(k) == {[s |-> x.s, den |-> d] : x \in {y \in known : y.k = k}, d \in {<<49>>, <<49, 48>>, <<50>>}}
TotalOrder == \A k \in Kinds : \A x \in Codes3(k), y \in Codes3(k) :
                /\ Cardinality({op \in {"lt", "gt", "eq"} : Order(op, x, y)}) = 1
                /\ Order("le", x, y) = (Order("lt", x, y) \/ Order("eq", x, y))
                /\ Order("ge", x, y) = Order("le", y, x) /\ Order("ne", x, y) = ~Order("eq", x, y)
                /\ \A z \in Codes3(k) : Before(x, y) /\ Before(y, z) => Before(x, z)
Unregistered == known = {}
Few == Cardinality(known) \leq Most
EmitTests == (Emit /\ known' = {}) => PrintT(<<"TEST", ToJson(text')>>)
================================================================================
