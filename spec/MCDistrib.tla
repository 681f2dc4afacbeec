------------------------------ MODULE MCDistrib -------------------------------
(* Every distribution of a menu under every name, asked everything; each is    *)
(* checked to be a probability distribution.                                   *)
EXTENDS Distrib, TLCExt, Json, IOUtils
Menu == JsonDeserialize(IOEnv.MENU)
Names == <<"A", "B">>
Fns == <<"lum", "pdf", "int", "cdf", "ppf", "rvs", "sf", "isf">>
VARIABLES s, last
vars == <<s, last>>
Init == s = [n \in {} |-> 0] /\ last = 0 /\ PrintT(<<"I", TLCFP(s)>>)
Make == \E i \in 1..Len(Menu), n \in {1, 2} : s' = Freeze(s, Names[n], Menu[i]) /\ last' = 10 * i + n
Ask == \E n \in {1, 2}, f \in 1..8 : Names[n] \in DOMAIN s /\ s' = s /\ last' = 10000 + 10 * f + n
Next == Make \/ Ask
Emit == PrintT(<<"E", TLCFP(s), last', TLCFP(s')>>)
View == s
Probability(d) ==
    LET xs == [k \in 0..6 |-> d.min + k * 40000]
        cs == [k \in 0..6 |-> Cdf(d, xs[k])]
    IN  /\ cs[0] = 0 /\ Cdf(d, Top(d) - 10000) >= 999000
        /\ \A k \in 0..5 : cs[k] <= cs[k+1] + 300                     \* it increases,
        /\ \A k \in 0..5 : LET x == xs[k] + 20000                     \* as fast as its density says
                               dc == Cdf(d, x + 1000) - Cdf(d, x - 1000)
                           IN  x < Top(d) => Abs(dc - Power(Min2(Pdf(d, x) + x + LOGLN10, 3 * U), 4) * 2) <= 500
(* every distribution of the menu is once the only one *)
Inv == DOMAIN s = {"A"} => Probability(s["A"])
==============================================================================
