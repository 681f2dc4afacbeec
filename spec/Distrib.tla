------------------------------- MODULE Distrib --------------------------------
(* Mass and luminosity functions as probability distributions. Everything is   *)
(* in fixed-point logarithms (module Fix). A distribution d is                  *)
(*   [f, x0, min, p1, a1, p2, a2, q]                                            *)
(* f = "schechter":  p1 (x/x0)^a1 exp(-x/x0) / x0                     per x     *)
(*     "double":     (p1 (x/x0)^a1 + p2 (x/x0)^a2) exp(-x/x0) / x0    per x     *)
(*     "modified":   p1 (x/x0)^(1-a1) exp(-log(1+x/x0)^2 / (2 a2^2))  per log x *)
(*                 (here q = 100)                                               *)
(*     "power":      p1 / ((x/x0)^a1 + (x/x0)^a2)                     per log x *)
(* with x0, min, p1, p2 as logarithms and a1, a2 in 1/q, above x = min.        *)
(* (p2 = NONE: no second term.)                                                *)
EXTENDS Fix, TLC
NONE == -999999999
LOGE == 43429            \* log10(e)
LOGLN10 == 36222         \* log10(ln 10)
PerX(d) == d.f \in {"schechter", "double"}
(* 10^t / ln 10 *)
ExpPart(t) == IF t > 250000 THEN 13700000 ELSE MulR(Power(t, 5), 4343, 10000)
Square(v) == LET a == v \div 1000                              \* v^2 in 10^-5
                 b == v - 1000 * a
             IN  10 * a * a + ((2000 * a * b + b * b) \div 100000)
(* logarithm of the function at the logarithm lx >= min *)
Lum(d, lx) ==
    LET t == lx - d.x0 IN
    CASE d.f = "schechter" -> d.p1 + MulR(t, d.a1, d.q) - ExpPart(t) - d.x0
      [] d.f = "double" -> (IF d.p2 = NONE THEN d.p1 + MulR(t, d.a1, d.q)
                            ELSE LogSum(d.p1 + MulR(t, d.a1, d.q), d.p2 + MulR(t, d.a2, d.q))) - ExpPart(t) - d.x0
      [] d.f = "modified" -> d.p1 + MulR(t, d.q - d.a1, d.q)
            - MulR(MulR(Square(LogSum(0, t)), LOGE, 10000), 500, d.a2 * d.a2)
      [] d.f = "power" -> d.p1 - LogSum(MulR(t, d.a1, d.q), MulR(t, d.a2, d.q))
(* per logarithm of x, whatever the function is of *)
PerLog(d, lx) == Lum(d, lx) + (IF PerX(d) THEN lx + LOGLN10 ELSE 0)
(* where nothing is left of it *)
Top(d) == d.x0 + (IF PerX(d) THEN 160000 ELSE 600000)
(* finer where the exponential falls fast *)
StepAt(d, lx) == IF PerX(d) /\ lx >= d.x0 + 30000 THEN 1250 ELSE 5000
(* Simpson's rule from lx on, relative to the largest value *)
RECURSIVE Best(_, _, _)
Best(d, lx, m) == IF lx > Top(d) THEN m ELSE Best(d, lx + 4 * StepAt(d, lx), Max2(m, PerLog(d, lx)))
Part(d, lx, m) == Power(Min2(PerLog(d, lx) - m, 50000), 6)
RECURSIVE Simpson(_, _, _, _)
(* acc = <<sum in coarse steps, sum in fine steps>> *)
Simpson(d, lx, m, acc) ==
    IF lx > Top(d) THEN acc
    ELSE LET st == StepAt(d, lx)
             t == Part(d, lx, m) + 4 * Part(d, lx + st, m) + Part(d, lx + 2 * st, m)
         IN  Simpson(d, lx + 2 * st, m, IF st = 5000 THEN <<acc[1] + t, acc[2]>> ELSE <<acc[1], acc[2] + t>>)
(* logarithm of the number of objects above lx *)
Above(d, lx0) == LET lx == Max2(lx0, d.min)
                     m == TLCEval(Best(d, lx, PerLog(d, lx)))
                     t == TLCEval(Simpson(d, lx, m, <<0, 0>>))
                 IN  m + LogN(Max2(1, t[1] + (t[2] + 2) \div 4)) - 6 * U + LogQ(1, 60)
(* norm = Above(d, d.min), worked out once *)
PdfN(d, norm, lx) == Lum(d, lx) - norm - (IF PerX(d) THEN 0 ELSE lx + LOGLN10)
(* fraction below lx, in 10^-6 *)
(* logarithm of the fraction above lx *)
TailN(d, norm, lx) == IF lx <= d.min THEN 0 ELSE Above(d, lx) - norm
CdfN(d, norm, lx) == IF lx <= d.min THEN 0 ELSE 1000000 - Power(Min2(0, Above(d, lx) - norm), 6)
Pdf(d, lx) == PdfN(d, Above(d, d.min), lx)
Cdf(d, lx) == CdfN(d, Above(d, d.min), lx)
(* tolerances: dex for values, 10^-6 for fractions *)
TolV(d) == IF PerX(d) THEN 60 ELSE 700
(* the last objects: dex of their number *)
TolT(d) == IF PerX(d) THEN 1500 ELSE 6000
TolP(d) == IF PerX(d) THEN 600 ELSE 16000
(* --------------------------------------------------------------- the machine *)
(* named distributions, all made from a shared family object *)
Freeze(s, name, d) == [n \in DOMAIN s \cup {name} |-> IF n = name THEN d ELSE s[n]]
==============================================================================
