------------------------------ MODULE AbundMatch ------------------------------
(* Abundance matching: two properties, each with a cumulative distribution,    *)
(* are matched so that equal fractions of the objects lie below matched        *)
(* values (above, when matched in reverse order).                              *)
(*                                                                             *)
(* Property 1 comes from a catalogue or from a distribution, property 2 from a *)
(* distribution; distributions are taken between limits, and a fraction of     *)
(* the objects may be missing below and above (in 1/8). Here distributions are *)
(* uniform, so that everything is a rational number; values are in units of    *)
(* 1/4. What lies outside what can be matched gets a filler.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
(* rationals [n, d] in lowest terms, d > 0 *)
Q(n, d) == LET g == Gcd(Abs(n), Abs(d))
               s == IF d < 0 THEN -1 ELSE 1
           IN  [n |-> s * (n \div g), d |-> s * (d \div g)]
I(n) == [n |-> n, d |-> 1]
Plus(a, b)  == Q(a.n * b.d + b.n * a.d, a.d * b.d)
Minus(a, b) == Q(a.n * b.d - b.n * a.d, a.d * b.d)
Times(a, b) == LET g == Gcd(Abs(a.n), b.d)
                   h == Gcd(Abs(b.n), a.d)
                   gg == IF g = 0 THEN 1 ELSE g
                   hh == IF h = 0 THEN 1 ELSE h
               IN  Q((a.n \div gg) * (b.n \div hh), (a.d \div hh) * (b.d \div gg))
Over(a, b)  == Times(a, Q(b.d, b.n))
Less(a, b)  == a.n * b.d < b.n * a.d
INFTY == 1000000000        \* a limit at infinity
(* values: a rational, or one of those *)
Num(r) == [k |-> "num", r |-> r]
NaN    == [k |-> "nan", r |-> I(0)]
Inf    == [k |-> "inf", r |-> I(0)]

(* ------------------------------------------------- distributions of a match *)
(* p = [cat, a, b, lo, hi, ml, mh, exl, exh]; cat is the sorted catalogue, or  *)
(* empty for a uniform distribution over [a, b] taken between lo and hi        *)
FromCat(p) == Len(p.cat) > 0
N(p) == Len(p.cat)
LoEnd(p) == IF FromCat(p) THEN p.cat[1] ELSE p.lo
HiEnd(p) == IF FromCat(p) THEN p.cat[N(p)] ELSE p.hi
Clip(p, x) == IF x < p.a THEN p.a ELSE IF x > p.b THEN p.b ELSE x
Frac(p, x) == Q(Clip(p, x) - p.a, p.b - p.a)
Known(p) == Q(8 - p.ml - p.mh, 8)            \* fraction of the objects that is there
Fill(x, flat) == IF x = "flat" THEN (IF flat >= INFTY THEN Inf ELSE Num(I(flat)))
                 ELSE IF x \in {"nan", "none"} THEN NaN
                 ELSE IF x = "m7" THEN Num(I(-28)) ELSE Num(I(0))
FillLo(p) == Fill(p.exl, LoEnd(p))
FillHi(p) == Fill(p.exh, HiEnd(p))
Outside(p, x) == x < LoEnd(p) \/ x > HiEnd(p)
(* Objects of a catalogue may have equal values: the fraction of the objects   *)
(* below such a value is anything between the first and the last of them       *)
(* (end = 1 and 2).                                                            *)
RECURSIVE FirstFrom(_, _, _, _)
(* the first entry of i..j that is at least x, of a sorted sequence *)
FirstFrom(q, x, i, j) ==
    IF i >= j THEN i
    ELSE LET h == (i + j) \div 2 IN IF q[h] >= x THEN FirstFrom(q, x, i, h) ELSE FirstFrom(q, x, h + 1, j)
RECURSIVE LastTo(_, _, _, _)
LastTo(q, x, i, j) ==
    IF i >= j THEN i
    ELSE LET h == (i + j + 1) \div 2 IN IF q[h] <= x THEN LastTo(q, x, h, j) ELSE LastTo(q, x, i, h - 1)
Tied(p, x) == /\ FromCat(p) /\ x >= LoEnd(p) /\ x <= HiEnd(p)
              /\ LET k == FirstFrom(p.cat, x, 1, N(p)) IN k < N(p) /\ p.cat[k] = x /\ p.cat[k+1] = x
(* fraction of the objects below x *)
BelowEnd(p, x, end) ==
    IF x < LoEnd(p) THEN I(0)
    ELSE IF x > HiEnd(p) THEN I(1)
    ELSE LET f == IF FromCat(p)
                  THEN LET k == FirstFrom(p.cat, x, 1, N(p))
                       IN  Over(IF p.cat[k] = x
                                THEN I((IF end = 1 THEN k ELSE LastTo(p.cat, x, 1, N(p))) - 1)
                                ELSE Plus(I(k - 2), Q(x - p.cat[k-1], p.cat[k] - p.cat[k-1])),
                                I(N(p) - 1))
                  ELSE Over(Minus(Frac(p, x), Frac(p, p.lo)), Minus(Frac(p, p.hi), Frac(p, p.lo)))
         IN  Plus(Q(p.ml, 8), Times(f, Known(p)))
Below(p, x) == BelowEnd(p, x, 1)
(* the value below which the fraction c lies *)
Low(p)  == Q(p.ml, 8)
High(p) == Q(8 - p.mh, 8)
AtEdge(p, c) == c = Low(p) \/ c = High(p)
Value(p, c) ==
    IF Less(c, Low(p)) THEN FillLo(p)
    ELSE IF Less(High(p), c) THEN FillHi(p)
    ELSE LET f == Over(Minus(c, Low(p)), Known(p))
         IN  IF FromCat(p)
             THEN LET t == Times(f, I(N(p) - 1))
                      k0 == t.n \div t.d
                      k == IF k0 >= N(p) - 1 THEN N(p) - 2 ELSE k0
                  IN  Num(Plus(I(p.cat[k+1]), Times(Minus(t, I(k)), I(p.cat[k+2] - p.cat[k+1]))))
             ELSE LET u == Plus(Times(f, Minus(Frac(p, p.hi), Frac(p, p.lo))), Frac(p, p.lo))
                  IN  Num(Plus(I(p.a), Times(u, I(p.b - p.a))))
(* m = [p1, p2, rev]; the value of the other property matched to x of side s *)
Own(m, s)   == IF s = 1 THEN m.p1 ELSE m.p2
Other(m, s) == IF s = 1 THEN m.p2 ELSE m.p1
CumEnd(m, s, x, end) == LET c == BelowEnd(Own(m, s), x, end) IN IF m.rev THEN Minus(I(1), c) ELSE c
Cum(m, s, x) == CumEnd(m, s, x, 1)
Matched(m, s, x) == Value(Other(m, s), Cum(m, s, x))
(* A value outside what property s covers, where nothing is missing, may be    *)
(* taken for the outermost value or be filled.                                 *)
Answers(m, s, x) ==
    LET v == Matched(m, s, x)
        o == Other(m, s)
        c == Cum(m, s, x)
    IN  {v} \cup (IF Outside(Own(m, s), x) /\ AtEdge(o, c)
                  THEN {IF c = Low(o) THEN FillLo(o) ELSE FillHi(o)} ELSE {})
(* the result r of an array of the code: zero for the edge of a distribution   *)
ZeroedEdge(m, s, x) == ~FromCat(Other(m, s)) /\ \E end \in {1, 2} : AtEdge(Other(m, s), CumEnd(m, s, x, end))

(* --------------------------------------------------------------- the machine *)
Modes == {"flat", "nan", "none", "m7", "zero"}
GoodPart(p) == p.ml >= 0 /\ p.mh >= 0 /\ p.ml <= 8 /\ p.mh <= 8 /\ p.ml + p.mh <= 8 /\ p.exl \in Modes /\ p.exh \in Modes
Good(m) == GoodPart(m.p1) /\ GoodPart(m.p2)
(* matches that leave something to match *)
Usable(m) == Good(m) /\ m.p1.ml + m.p1.mh < 8 /\ m.p2.ml + m.p2.mh < 8
Make(s, name, m) == IF Good(m) THEN [n \in DOMAIN s \cup {name} |-> IF n = name THEN m ELSE s[n]] ELSE s
==============================================================================
