------------------------------ MODULE CheckDigits ------------------------------
(* Codes of securities and legal entities.  A code is a sequence of symbols (their ASCII numbers); a clerk enters codes into a
   register, which keeps the complete code (with check digits) of every admissible entry and nothing of a refused one. *)
EXTENDS Integers, Sequences
VARIABLES register
IsDigit(c) == c \in 48..57
IsUpper(c) == c \in 65..90
IsLower(c) == c \in 97..122
\* '*', '@' and '#' have the values 36, 37 and 38
Value(c) == IF IsDigit(c) THEN c - 48 ELSE IF IsUpper(c) THEN c - 55 ELSE IF IsLower(c) THEN c - 87
            ELSE CASE c = 42 -> 36 [] c = 64 -> 37 [] c = 35 -> 38
Alnum(s) == \A i \in 1..Len(s) : IsDigit(s[i]) \/ IsUpper(s[i]) \/ IsLower(s[i])
\* decimal digits of the values of the symbols, one after the other
RECURSIVE Expand(_)
Expand(s) == IF s = <<>> THEN <<>>
             ELSE LET v == Value(s[1]) IN (IF v >= 10 THEN <<v \div 10, v % 10>> ELSE <<v>>) \o Expand(Tail(s))
Cross(n) == (n \div 10) + (n % 10)
RECURSIVE LuhnSum(_, _)
\* digits from the right are doubled alternately, beginning with `twice`
LuhnSum(d, twice) == IF d = <<>> THEN 0
                     ELSE LET x == d[Len(d)] IN (IF twice THEN Cross(2 * x) ELSE x) + LuhnSum(SubSeq(d, 1, Len(d) - 1), ~twice)
Complement(n) == (10 - (n % 10)) % 10
Isin(s) == Complement(LuhnSum(Expand(s), TRUE))
RECURSIVE CusipSum(_)
\* the symbols at even positions count twice, digit by digit
CusipSum(s) == IF s = <<>> THEN 0
               ELSE LET v == Value(s[Len(s)]) IN Cross(IF Len(s) % 2 = 0 THEN 2 * v ELSE v) + CusipSum(SubSeq(s, 1, Len(s) - 1))
Cusip(s) == Complement(CusipSum(s))
Weights == <<1, 3, 1, 7, 3, 9>>
RECURSIVE SedolSum(_)
SedolSum(s) == IF s = <<>> THEN 0 ELSE Value(s[Len(s)]) * Weights[Len(s)] + SedolSum(SubSeq(s, 1, Len(s) - 1))
Sedol(s) == Complement(SedolSum(s))
RECURSIVE Mod97(_, _)
Mod97(d, m) == IF d = <<>> THEN m ELSE Mod97(Tail(d), (10 * m + d[1]) % 97)
Lei(s) == 98 - Mod97(Expand(s) \o <<0, 0>>, 0)
Kinds == {"isin", "cusip", "sedol", "lei"}
BodyLength(k) == CASE k = "isin" -> 11 [] k = "cusip" -> 8 [] k = "sedol" -> 6 [] k = "lei" -> 18
CheckSymbols(k, s) == CASE k = "isin" -> <<48 + Isin(s)>> [] k = "cusip" -> <<48 + Cusip(s)>> [] k = "sedol" -> <<48 + Sedol(s)>>
                        [] k = "lei" -> LET n == Lei(s) IN <<48 + (n \div 10), 48 + (n % 10)>>
Complete(k, s) == s \o CheckSymbols(k, s)
Admissible(k, s) == /\ Len(s) = BodyLength(k)
                    /\ k = "isin" => IsUpper(s[1]) /\ IsUpper(s[2]) /\ Alnum(s)
                    /\ k = "sedol" => Alnum(s)
                    /\ k = "lei" => (\A i \in 1..4 : IsDigit(s[i])) /\ s[5] = 48 /\ s[6] = 48 /\ \A i \in 1..18 : IsDigit(s[i]) \/ IsUpper(s[i])
\* The complete code on its own: what makes it valid (a second statement of each standard)
RECURSIVE Weighted(_)
Weighted(s) == IF s = <<>> THEN 0 ELSE Value(s[Len(s)]) * (Weights \o <<1>>)[Len(s)] + Weighted(SubSeq(s, 1, Len(s) - 1))
Valid(k, s) == CASE k = "isin" -> Len(s) = 12 /\ LuhnSum(Expand(s), FALSE) % 10 = 0
                 [] k = "cusip" -> Len(s) = 9 /\ IsDigit(s[9]) /\ (CusipSum(SubSeq(s, 1, 8)) + Value(s[9])) % 10 = 0
                 [] k = "sedol" -> Len(s) = 7 /\ Weighted(s) % 10 = 0
                 [] k = "lei" -> Len(s) = 20 /\ Mod97(Expand(s), 0) = 1
\* entries: without check digits, or complete; `strict` entries are refused when their check digits are wrong
Enter(k, s, full, strict) ==
    LET body == SubSeq(s, 1, BodyLength(k)) ok == Admissible(k, body) /\ (full /\ strict => s = Complete(k, body)) IN
    register' = IF ok THEN Append(register, [k |-> k, s |-> Complete(k, body)]) ELSE register
================================================================================
