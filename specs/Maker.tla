---------------------------------- MODULE Maker --------------------------------
(* A market maker that quotes both sides of a market around its reservation price (Avellaneda and Stoikov), in exact arithmetic.
   The market's price is mid minor units (a Big; den of them in a unit of the currency), the inventory is long - short, t eighths of the
   session are over, volatility is sig / 4, risk aversion g / 1024, and the arrival rate decays with kk / 4.  In minor units
     centre = mid - (long - short) (g/1024) (sig/4)^2 (1 - t/8) den
     half   = ((g/1024) (sig/4)^2 (1 - t/8) + (2 1024/g) ln(1 + g / (256 kk))) den / 2,   with 2 / (kk/4) for the last term if g = 0
   and the bid is centre - half rounded down, the ask centre + half rounded up. *)
EXTENDS Integers, Sequences, Big
VARIABLE par
I(n) == Int2Big(n)
\* ln(1 + x) = 2 (z + z^3/3 + z^5/5 ...) with z = x / (2 + x); here x = g / (256 kk) at most 1, z = a / b with a = g, b = 512 kk + g
Terms == 10
Enough(p) == IF 25 * p.g <= 512 * p.kk THEN 4 ELSE Terms
Common == 14549535                           \* a multiple of every odd number below 2 Terms
ASSUME \A k \in 0..Terms - 1 : Common % (2 * k + 1) = 0
RECURSIVE Horner(_, _, _, _)
\* <<b^(2k), sum over the k last terms of a^(2i) b^(2k - 2 - 2i) Common/(odd number)>>
Horner(aa, bb, k, acc) == IF k = 0 THEN acc
                          ELSE Horner(aa, bb, k - 1, <<Mul(acc[1], bb), Add(Mul(I(Common \div (2 * k - 1)), acc[1]), Mul(aa, acc[2]))>>)
\* numerator and denominator
Ln(p) == LET a == I(p.g)  b == I(512 * p.kk + p.g)  bb == Mul(b, b)  s == Horner(Mul(a, a), bb, Enough(p), <<One, Zero>>) IN
         <<Mul(Mul(I(2), a), Mul(s[2], b)), Mul(s[1], I(Common))>>
Fixed == 262144                              \* 2 * 1024 * 16 * 8
\* 131072 times what a unit of inventory moves the quotes by
Risk(p) == Mul(Mul(I(p.g * p.sig), I(p.sig * (8 - p.t))), I(p.den))
\* <<centre, half, scale>>, the first two as multiples of 1 / scale
Shape(p) == IF p.g = 0 THEN <<Mul(p.mid, I(p.kk)), I(4 * p.den), I(p.kk)>>
            ELSE LET ln == Ln(p)  gd == Mul(I(p.g), ln[2])  sc == Mul(I(Fixed), gd)  r == Risk(p) IN
                 <<Sub(Mul(p.mid, sc), Mul(Mul(I(2 * (p.long - p.short)), r), gd)),
                   Add(Mul(r, gd), Mul(Mul(I(1024), I(Fixed)), Mul(I(p.den), ln[1]))), sc>>
\* floating-point numbers are good to a part in 10^5 of a minor unit here
Fuzz == 100000
Rounded(x, y, s) == /\ Leq(Mul(x, Mul(s, I(Fuzz))), Add(Mul(y, I(Fuzz)), s))                 \* x <= y / s + 1/Fuzz
                    /\ Less(Sub(Mul(y, I(Fuzz)), s), Mul(Add(x, One), Mul(s, I(Fuzz))))      \* y / s - 1/Fuzz < x + 1
QuotesOf(x, b, a) == Less(b, a) /\ Rounded(b, Sub(x[1], x[2]), x[3]) /\ Rounded(Neg(a), Neg(Add(x[1], x[2])), x[3])
Quotes(p, b, a) == QuotesOf(Shape(p), b, a)
================================================================================
