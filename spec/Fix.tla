--------------------------------- MODULE Fix ----------------------------------
(* Fixed-point arithmetic on logarithms. Positive quantities are kept as       *)
(* 10^5 log10(q) ("dex" below), so that power laws, sums of power laws and     *)
(* exponentials stay within TLC's integers. Errors are of a few units, i.e.    *)
(* below 10^-4 dex.                                                            *)
EXTENDS Integers, Sequences, FixTables
U == 100000
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
(* a * n / d, d and |n| d within 2*10^9 *)
MulR(a, n, d) ==
    LET q == a \div d
        r == a - q * d
    IN  q * n + ((r * n + (d \div 2)) \div d)
(* a / (n / d) *)
DivR(a, n, d) == MulR(a, d, n)
Pow10i(k) == 10 ^ k
(* log10(1 + 10^(-x)), x >= 0 *)
Soft(x) == LET i == x \div 1000
               r == x - 1000 * i
           IN  IF i >= 600 THEN 0
               ELSE SoftT[i+1] + (((SoftT[i+2] - SoftT[i+1]) * r) \div 1000)
(* log10(10^p + 10^q) *)
LogSum(p, q) == Max2(p, q) + Soft(Abs(p - q))
(* 10^x as a multiple of 10^-s *)
Power(x, s) ==
    LET k == x \div U
        f == x - k * U
        i == f \div 200
        r == f - 200 * i
        m == PowT[i+1] + (((PowT[i+2] - PowT[i+1]) * r) \div 200)
        e == k + s - 6
    IN  IF e >= 0 THEN m * Pow10i(Min2(e, 3)) ELSE IF e < -7 THEN 0 ELSE (m + (Pow10i(-e) \div 2)) \div Pow10i(-e)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN 0 ELSE 1 + Digits(n \div 10)
(* log10 of a positive integer *)
LogN(n) ==
    LET k == Digits(n)
        v == IF k <= 6 THEN n * Pow10i(6 - k) ELSE n \div Pow10i(k - 6)
        i == v \div 10000
        r == v - 10000 * i
    IN  k * U + LogT[i-99] + (IF r = 0 THEN 0 ELSE ((LogT[i-98] - LogT[i-99]) * r) \div 10000)
LogQ(n, d) == LogN(n) - LogN(d)
(* 10^6 erf(x), x in 10^-4 *)
Erf(x) == LET a == Abs(x)
              i == a \div 100
              r == a - 100 * i
              e == IF i >= 400 THEN 1000000 ELSE ErfT[i+1] + (((ErfT[i+2] - ErfT[i+1]) * r) \div 100)
          IN  IF x < 0 THEN -e ELSE e
==============================================================================
