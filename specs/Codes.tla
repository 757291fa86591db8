--------------------------------- MODULE Codes ---------------------------------
(* Codes of currencies (ISO 4217), countries (ISO 3166-1 alpha-2) and markets (ISO 10383): which texts are codes, how codes compare,
   that codes identify, and what the tables of currencies, countries and jurisdictions list; money in the units of its currency and
   rates.  Texts are sequences of character numbers. *)
EXTENDS Integers, Sequences
VARIABLE known
\* known: what has been seen of each code: set of [k |-> kind, s |-> text, h |-> digest, id |-> identifier ("" if it has none)]
Letter(c) == c \in 65..90
Digit(c) == c \in 48..57
Kinds == {"4217", "3166", "10383"}
Length(k) == CASE k = "4217" -> 3 [] k = "3166" -> 2 [] k = "10383" -> 4
IsCode(k, s) == Len(s) = Length(k) /\ \A i \in 1..Len(s) : Letter(s[i]) \/ (k = "10383" /\ Digit(s[i]))
\* a currency also needs subunits
Accepted(k, s, den) == IsCode(k, s) /\ (k = "4217" => den # <<48>>)
\* decimal numerals without leading zeros
NumLess(a, b) == \/ Len(a) < Len(b)
                 \/ Len(a) = Len(b) /\ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..i - 1 : a[j] = b[j]
TextLess(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..i - 1 : a[j] = b[j]
Same(x, y) == x.s = y.s /\ x.den = y.den
Before(x, y) == TextLess(x.s, y.s) \/ (x.s = y.s /\ NumLess(x.den, y.den))
Order(op, x, y) == CASE op = "eq" -> Same(x, y) [] op = "ne" -> ~Same(x, y)
                     [] op = "lt" -> Before(x, y) [] op = "gt" -> Before(y, x)
                     [] op = "le" -> ~Before(y, x) [] op = "ge" -> ~Before(x, y)
\* an amount of subunits in words: "USD 5/100"
Formatted(s, q, den) == s \o <<32>> \o q \o <<47>> \o den
\* a code always has the same digest, and digests and identifiers of currencies and countries tell them apart
Consistent(x) == \A y \in known : y.k = x.k =>
                     IF y.s = x.s THEN y.h = x.h /\ y.id = x.id
                     ELSE x.k = "10383" \/ (y.h # x.h /\ (x.id = "" \/ y.id # x.id))
Learn(x) == Consistent(x) /\ known' = known \cup {x}
\* ------------------------------------------------------------------ money and rates: the number m / 2^k in units of 1 / den
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Abs(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE 1
Towards(m, k, den) == Sign(m) * ((Abs(m) * den) \div Pow2(k))
Away(m, k, den) == Sign(m) * ((Abs(m) * den + Pow2(k) - 1) \div Pow2(k))
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
\* n / d is the fraction p / q, q > 0, in lowest terms
IsFraction(n, d, p, q) == LET g == Gcd(Abs(p), q) IN n = Sign(p) * (Abs(p) \div g) /\ d = q \div g
================================================================================
