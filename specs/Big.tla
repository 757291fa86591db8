----------------------------------- MODULE Big ---------------------------------
(* Integers of any size: <<sign, digits>> with sign -1, 0, 1 and digits in base 10000, least significant first, no leading zeros. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL B == 10000
LOCAL D(s, k) == IF k <= Len(s) THEN s[k] ELSE 0
LOCAL MaxI(a, b) == IF a > b THEN a ELSE b
RECURSIVE Trim(_)
LOCAL Trim(s) == IF s = <<>> \/ s[Len(s)] # 0 THEN s ELSE Trim(SubSeq(s, 1, Len(s) - 1))
LOCAL Mk(sg, s) == LET t == Trim(s) IN IF t = <<>> THEN <<0, <<>>>> ELSE <<sg, t>>
RECURSIVE NatLess(_, _, _), NatAdd(_, _, _, _), NatSub(_, _, _, _), NatScale(_, _, _, _), NatMul(_, _, _)
\* a < b looking at the k lowest digits
LOCAL NatLess(a, b, k) == IF k = 0 THEN FALSE ELSE IF D(a, k) # D(b, k) THEN D(a, k) < D(b, k) ELSE NatLess(a, b, k - 1)
LOCAL NLess(a, b) == NatLess(a, b, MaxI(Len(a), Len(b)))
LOCAL NatAdd(a, b, k, c) == IF k > MaxI(Len(a), Len(b)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                            ELSE LET x == D(a, k) + D(b, k) + c IN <<x % B>> \o NatAdd(a, b, k + 1, x \div B)
LOCAL NatSub(a, b, k, c) == IF k > Len(a) THEN <<>>
                            ELSE LET x == D(a, k) - D(b, k) - c IN <<(x + B) % B>> \o NatSub(a, b, k + 1, IF x < 0 THEN 1 ELSE 0)
LOCAL NatScale(a, m, k, c) == IF k > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                              ELSE LET x == a[k] * m + c IN <<x % B>> \o NatScale(a, m, k + 1, x \div B)
LOCAL NatMul(a, b, k) == IF k > Len(b) THEN <<>> ELSE NatAdd(NatScale(a, b[k], 1, 0), <<0>> \o NatMul(a, b, k + 1), 1, 0)
RECURSIVE FromNat(_)
LOCAL FromNat(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o FromNat(n \div B)
Int2Big(n) == IF n = 0 THEN <<0, <<>>>> ELSE IF n > 0 THEN <<1, FromNat(n)>> ELSE <<-1, FromNat(-n)>>
Zero == <<0, <<>>>>
One == <<1, <<1>>>>
Neg(a) == <<-a[1], a[2]>>
Abs(a) == IF a[1] < 0 THEN Neg(a) ELSE a
Add(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
             ELSE IF a[1] = b[1] THEN Mk(a[1], NatAdd(a[2], b[2], 1, 0))
             ELSE IF NLess(a[2], b[2]) THEN Mk(b[1], NatSub(b[2], a[2], 1, 0)) ELSE Mk(a[1], NatSub(a[2], b[2], 1, 0))
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN Zero ELSE Mk(a[1] * b[1], NatMul(a[2], b[2], 1))
Less(a, b) == IF a[1] # b[1] THEN a[1] < b[1] ELSE IF a[1] = 0 THEN FALSE
              ELSE IF a[1] > 0 THEN NLess(a[2], b[2]) ELSE NLess(b[2], a[2])
Leq(a, b) == ~Less(b, a)
\* q is a / b rounded towards zero: |a| = |q| |b| + r with 0 <= r < |b| and the sign of q is right
IsQuotient(a, b, q) == LET r == Sub(Abs(a), Mul(Abs(q), Abs(b))) IN
                       b # Zero /\ Leq(Zero, r) /\ Less(r, Abs(b)) /\ (q = Zero \/ q[1] = a[1] * b[1])
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN Zero ELSE Add(s[1], Sum(Tail(s)))
================================================================================
