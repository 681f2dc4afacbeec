------------------------------ MODULE AbundModel ------------------------------
(* Models that give halos the infrared luminosities (Gruppioni et al. 2013) or *)
(* stellar masses (Bethermin et al. 2017) of the galaxies that are as abundant *)
(* at that redshift. Matching is done once per simulation and kept on disk.    *)
(*                                                                             *)
(* A catalogue is a sequence of snapshots [z, m, v] (redshift in 1/1000,       *)
(* logarithms of the masses, peak velocities in 1/10 km/s), the logarithm of   *)
(* its volume in Mpc^3, its geometry and whether it has velocities at all.     *)
(* A relation remembers what it was made of: [cat, hp, hmin, model, par] (and  *)
(* tab, numbers of galaxies worked out once).                                  *)
(* State: the catalogue on disk, the relation of each model kept on disk and   *)
(* the objects of the session with the relation they loaded.                   *)
EXTENDS Distrib, FiniteSets, SequencesExt
Par(p, n, default) == IF \E i \in 1..Len(p) : p[i].n = n THEN p[CHOOSE i \in 1..Len(p) : p[i].n = n].v ELSE default
ZLog(z) == LogN(1000 + z) - 3 * U

(* ------------------------------------------- infrared luminosity functions *)
G13(par, z) ==
    [f |-> "modified", q |-> 100, a1 |-> Par(par, "alpha", 120), a2 |-> Par(par, "sigma", 50), p2 |-> NONE,
     min |-> Par(par, "lmin", 850000),
     x0 |-> Par(par, "lstar", 995000) + (IF z < 2000 THEN MulR(ZLog(z), 355, 100)
                                         ELSE MulR(ZLog(2000), 355, 100) + MulR(ZLog(z) - ZLog(2000), 162, 100)),
     p1 |-> Par(par, "phistar", -225000) - (IF z < 1100 THEN MulR(ZLog(z), 57, 100)
                                            ELSE MulR(ZLog(1100), 57, 100) + MulR(ZLog(z) - ZLog(1100), 392, 100))]
(* --------------------------------------------------- stellar mass functions *)
(* [z (10^-4), log M*, slope 1 (1/100), log phi 1, slope 2, log phi 2] from    *)
(* Kelvin, Moutard, Davidzon and Grazian et al. as compiled by Bethermin et al *)
Ten(n, k) == LogN(n) - k * U
Salpeter == Ten(61, 2)
SMF == <<
  <<425,   1064000, -43,  Ten(418, 5), -150, Ten(74, 5)>>,
  <<3500,  1083000, -95,  -263000,     -182, -401000>>,
  <<6500,  1076000, -57,  -266000,     -149, -324000>>,
  <<9500,  1068000, -33,  -257000,     -149, -324000>>,
  <<13000, 1066000, 19,   -288000,     -149, -324000>>,
  <<17500, 1051000, 82,   Ten(64, 5),  -128, Ten(969, 6)>>,
  <<22500, 1060000, 7,    Ten(45, 5),  -157, Ten(295, 6)>>,
  <<27500, 1059000, -8,   Ten(21, 5),  -167, Ten(228, 6)>>,
  <<32500, 1083000, 0,    NONE,        -176, Ten(90, 6)>>,
  <<40000, 1096000 + Salpeter, 0, NONE, -163, -394000>>,
  <<50000, 1078000 + Salpeter, 0, NONE, -163, -418000>>,
  <<60000, 1049000 + Salpeter, 0, NONE, -155, -416000>>,
  <<70000, 1069000 + Salpeter, 0, NONE, -188, -524000>> >>
(* dl[i], vol[i]: logarithms of the ratios of luminosity distances and of      *)
(* volume elements, this cosmology over that of the observations, at SMF[i]    *)
LinMix(a, b, w) == MulR(a, 10000 - w, 10000) + MulR(b, w, 10000)
LogMix(p, q, w) ==
    LET x == IF p = NONE \/ w = 10000 THEN NONE ELSE p + Ten(10000 - w, 4)
        y == IF q = NONE \/ w = 0 THEN NONE ELSE q + Ten(w, 4)
    IN  IF x = NONE THEN y ELSE IF y = NONE THEN x ELSE LogSum(x, y)
B17(geo, z) ==
    LET t == 10 * z
        i == IF t <= SMF[1][1] THEN 1 ELSE IF t >= SMF[13][1] THEN 12
             ELSE CHOOSE k \in 1..12 : SMF[k][1] <= t /\ t < SMF[k+1][1]
        w == IF t <= SMF[1][1] THEN 0 ELSE IF t >= SMF[13][1] THEN 10000
             ELSE ((t - SMF[i][1]) * 10000) \div (SMF[i+1][1] - SMF[i][1])
        less(k, p) == IF p = NONE THEN NONE ELSE p - geo.vol[k]
    IN  [f |-> "double", q |-> 10000, min |-> 500000,
         x0 |-> LinMix(SMF[i][2] + 2 * geo.dl[i], SMF[i+1][2] + 2 * geo.dl[i+1], w),
         a1 |-> LinMix(100 * SMF[i][3], 100 * SMF[i+1][3], w),
         p1 |-> LogMix(less(i, SMF[i][4]), less(i+1, SMF[i+1][4]), w),
         a2 |-> LinMix(100 * SMF[i][5], 100 * SMF[i+1][5], w),
         p2 |-> LinMix(less(i, SMF[i][6]), less(i+1, SMF[i+1][6]), w)]
(* a double function whose first term vanishes: the second comes first *)
Tidy(d) == IF d.f = "double" /\ d.p1 = NONE THEN [d EXCEPT !.p1 = d.p2, !.a1 = d.a2, !.p2 = NONE] ELSE d
Galaxies(rel, z) == IF rel.model = "g13" THEN G13(rel.par, z) ELSE Tidy(B17(rel.cat.geo, z))

(* --------------------------------------------------------------- matching *)
(* the halos of a snapshot that take part, by the property they are matched by *)
Values(rel, sn) ==
    SetToSortSeq({IF rel.hp = "mass" THEN sn.m[k] ELSE sn.v[k] : k \in {k \in 1..Len(sn.m) : sn.m[k] >= rel.hmin}},
                 LAMBDA a, b : a < b)
(* position of x between v[k] and v[k+1], in 1/10000 *)
Between(rel, v, k, x) ==
    IF rel.hp = "vmax" THEN ((x - v[k]) * 10000) \div (v[k+1] - v[k])
    ELSE LET a == x - v[k]
             b == v[k+1] - v[k]
         IN  IF a < 5 THEN 0 ELSE Power(a - b + LogN(1000000 - Power(-a, 6)) - LogN(1000000 - Power(-b, 6)), 4)
(* logarithm of the number of halos per volume above x; halos are spread       *)
(* evenly between the smallest and the largest                                 *)
HalosAbove(rel, v, x, vol) ==
    LET n == Len(v)
        k == CHOOSE k \in 1..n-1 : v[k] <= x /\ x < v[k+1]
        left == 10000 * (n - k) - Between(rel, v, k, x)
    IN  LogN(n) + LogN(left) - LogN(10000 * (n - 1)) - vol
(* grid of the relation: what is this near the outermost halos is interpolated *)
(* with values from beyond them                                                *)
Margin(rel) == IF rel.hp = "mass" THEN 500 ELSE 15
Certain(rel, v, x) == Len(v) >= 3 /\ x > v[1] + Margin(rel) /\ x < v[Len(v) - 1] - Margin(rel)
(* numbers of galaxies above Node(d, 1), Node(d, 2), ... (logarithms), from    *)
(* the brightest down to the minimum, added up by Simpson's rule               *)
STEP == 5000
Node(d, k) == Max2(d.min, Top(d) - 2 * STEP * (k - 1))
Panel(d, a, b) == LogSum(LogSum(PerLog(d, a), PerLog(d, b)), PerLog(d, (a + b) \div 2) + 60206) + LogN(b - a) - 5 * U - LogN(6)
RECURSIVE Counts(_, _, _)
Counts(d, k, acc) ==
    IF Node(d, k) = d.min THEN acc
    ELSE Counts(d, k + 1, Append(acc, LogSum(acc[k], Panel(d, Node(d, k + 1), Node(d, k)))))
CountTable(d) == Counts(d, 1, <<PerLog(d, Top(d)) - U>>)
(* the value above which there are 10^target galaxies *)
RECURSIVE Bisect(_, _, _, _, _, _, _)
Bisect(d, above, top, target, lo, hi, n) ==
    IF n = 0 \/ hi - lo < 10 THEN (lo + hi) \div 2
    ELSE LET mid == (lo + hi) \div 2
         IN  IF LogSum(above, Panel(d, mid, top)) > target THEN Bisect(d, above, top, target, mid, hi, n - 1)
             ELSE Bisect(d, above, top, target, lo, mid, n - 1)
Quantile(d, tab, target) ==
    LET k == CHOOSE k \in 2..Len(tab) : tab[k] >= target /\ tab[k-1] < target
    IN  Bisect(d, tab[k-1], Node(d, k - 1), target, Node(d, k), Node(d, k - 1), 10)
(* there are no galaxies left for the smaller halos *)
Spare(tab, a) == a > tab[Len(tab)] + 1500
Short(tab, a) == a < tab[Len(tab)] - 1500
Tables(cat, model, par) ==
    LET rel == [cat |-> cat, model |-> model, par |-> par]
    IN  [k \in 1..Len(cat.snaps) |-> CountTable(Galaxies(rel, cat.snaps[k].z))]
Plainly(rel, k, x) ==
    LET v == Values(rel, rel.cat.snaps[k])
    IN  Certain(rel, v, x) /\ LET a == HalosAbove(rel, v, x, rel.cat.vol) IN a > rel.tab[k][1] /\ Short(rel.tab[k], a)
Never(rel, k, x) ==
    LET v == Values(rel, rel.cat.snaps[k])
    IN  Certain(rel, v, x) /\ Spare(rel.tab[k], HalosAbove(rel, v, x, rel.cat.vol))
At(rel, k, x) ==
    Quantile(Galaxies(rel, rel.cat.snaps[k].z), rel.tab[k], HalosAbove(rel, Values(rel, rel.cat.snaps[k]), x, rel.cat.vol))
(* snapshots either side of redshift z and the weight of the second; snapshots *)
(* come in order of falling redshift                                           *)
Side(cat, z) == CHOOSE i \in 1..Len(cat.snaps)-1 : cat.snaps[i].z >= z /\ z >= cat.snaps[i+1].z
InZ(cat, z) == z <= cat.snaps[1].z /\ z >= cat.snaps[Len(cat.snaps)].z
WeightZ(cat, i, z) == ((cat.snaps[i].z - z) * 10000) \div (cat.snaps[i].z - cat.snaps[i+1].z)
InGrid(rel, x) == IF rel.hp = "mass" THEN x >= rel.hmin /\ x <= rel.hmin + 10 * U ELSE x >= 0 /\ x <= 50000

(* --------------------------------------------------------------- the machine *)
EMPTY == [none |-> TRUE]
Chosen(cat, hp) == IF hp = "auto" THEN (IF cat.vmax THEN "vmax" ELSE "mass") ELSE hp
Init0(cat) == [cat |-> cat, disk |-> [m \in {"g13", "b17"} |-> EMPTY], objs |-> [n \in {} |-> EMPTY]]
Fresh(s, e, tab) == [tab |-> tab, none |-> FALSE, cat |-> s.cat, hp |-> Chosen(s.cat, e.hp), hmin |-> e.hmin, model |-> e.model, par |-> e.par]
Matches(s, e) == e.remake \/ (e.comp /\ s.disk[e.model].none)
(* refused: a property that is not known, or that the catalogue lacks *)
Refused(s, e) == Matches(s, e) /\ (e.hp \notin {"auto", "mass", "vmax"} \/ (e.hp = "vmax" /\ ~s.cat.vmax))
Construct(s, e, tab) ==
    IF Refused(s, e) THEN s
    ELSE LET d == IF Matches(s, e) THEN Fresh(s, e, tab) ELSE s.disk[e.model]
         IN  [s EXCEPT !.disk[e.model] = d, !.objs = [n \in DOMAIN s.objs \cup {e.name} |->
                 IF n = e.name THEN [rel |-> d, model |-> e.model, tosfr |-> Par(e.par, "tosfr", -10 * U)] ELSE s.objs[n]]]
Recat(s, cat) == [s EXCEPT !.cat = cat]
==============================================================================
