------------------------------ MODULE Prescribe -------------------------------
(* The galaxy-property prescriptions: given a population of halos, each call   *)
(* gives every halo the luminosity (or star-formation rate) of the published   *)
(* relation - by itself, whatever other halos are in the call - and whatever   *)
(* is random about it (log-normal scatter, duty cycles, starbursts, quenched   *)
(* galaxies) follows from the deviates drawn from the caller's generator.      *)
(*                                                                             *)
(* Quantities are logarithms in 10^-5 dex (module Fix); ZERO is the logarithm  *)
(* of 0. A halo is [x, y, z, la]: logarithm of its mass or star-formation      *)
(* rate, redshift in 1/1000, and (where a model needs it) the logarithm of the *)
(* age of the universe in Gyr at that redshift.                                *)
(*                                                                             *)
(* A state maps the columns assigned so far to their values; assigning a       *)
(* column leaves every other one alone.                                        *)
EXTENDS Fix, FiniteSets, Json, IOUtils
ZERO == -999999999
PP == 10000000
Has(p, n) == \E i \in 1..Len(p) : p[i].n = n
Par(p, n, default) == IF Has(p, n) THEN p[CHOOSE i \in 1..Len(p) : p[i].n = n].v ELSE default

(* ------------------------------------------------------ published constants *)
(* rest frequencies of CO J -> J-1 in MHz, of HCN(1-0) *)
COFreq == <<115271, 230538, 345796, 461041, 576268, 691473, 806652, 921800,
            1036912, 1151985, 1267014, 1381995, 1496923>>
LineRatio(j) == LogQ(COFreq[j], COFreq[1])
(* slopes in 1/100, intercepts in 1/10 dex *)
KamAll   == [a |-> <<127, 111, 118, 109, 105, 104, 98, 100, 103, 101, 106, 99, 112>>,
             b |-> <<-10, 6, 1, 12, 18, 22, 29, 30, 29, 32, 31, 37, 29>>]
KamUlirg == [a |-> <<115, 66, 94, 68, 96, 102, 92, 91, 92, 83, 86, 79, 85>>,
             b |-> <<2, 49, 23, 49, 27, 24, 35, 37, 38, 47, 47, 53, 50>>]
KamNot   == [a |-> <<105, 112, 105, 109, 101, 101, 100, 107, 106, 112, 110, 103, 123>>,
             b |-> <<8, 4, 9, 12, 21, 23, 28, 25, 27, 25, 27, 34, 22>>]
(* De Looze et al.: slope 1/100, intercept 1/100 dex, scatter 1/1000 dex *)
DeLooze ==
    [cii  |-> [none |-> <<101, -699, 420>>, DGS |-> <<84, -529, 400>>, dwarfs |-> <<80, -573, 370>>,
               starbursts |-> <<100, -706, 270>>, agn |-> <<90, -609, 370>>, highz |-> <<118, -852, 400>>],
     oi   |-> [none |-> <<100, -679, 420>>, DGS |-> <<94, -637, 250>>, dwarfs |-> <<91, -623, 270>>,
               starbursts |-> <<89, -605, 200>>, agn |-> <<76, -508, 350>>],
     oiii |-> [none |-> <<112, -748, 660>>, DGS |-> <<92, -671, 300>>, dwarfs |-> <<92, -671, 300>>,
               starbursts |-> <<69, -389, 230>>, agn |-> <<87, -546, 350>>]]
(* Spinoglio et al. (corrected) and the earlier fits Uzgil et al. used *)
Spinoglio == [cii |-> <<89, 267>>, nii |-> <<101, 380>>, oi |-> <<98, 295>>, oiii88 |-> <<98, 311>>,
              oiii52 |-> <<88, 276>>, siii |-> <<104, 342>>, siii33 |-> <<99, 346>>, siii19 |-> <<97, 372>>,
              neii |-> <<99, 294>>, neiii |-> <<110, 400>>]
Uzgil     == [cii |-> <<89, 244>>, nii |-> <<101, 354>>, oi |-> <<98, 270>>, oiii88 |-> <<98, 286>>,
              oiii52 |-> <<88, 254>>, siii |-> <<104, 315>>, siii33 |-> <<99, 321>>, siii19 |-> <<97, 347>>,
              neii |-> <<99, 326>>, neiii |-> <<110, 372>>]
Schaerer  == [none |-> <<117, 661>>, uvir |-> <<100, 700>>, sed |-> <<84, 709>>, uvirx |-> <<117, 661>>, highz |-> <<128, 643>>]
LsunUnit  == LogN(3828) - 11 * U      \* one solar luminosity in 10^41 erg/s (10^34 W)

(* --------------------------------------------------------- Yang et al. 2022 *)
(* coefficients in 10^-5 *)
YCO(line) ==
  CASE line = "CO1-0" -> [m |-> <<1213000, -16780>>, m4 |-> <<1175000, -6833>>, m5 |-> <<1163000, -4943>>,
         n |-> <<-685500, 23660, -5013>>, n4 |-> <<-655400, -3725, 0>>, n5 |-> <<-627400, -9087>>,
         a |-> <<164200, 16630, -3238>>, a4 |-> <<373000, -83300, 8840>>, a5 |-> <<256000, -22300, 1420>>,
         b |-> <<1770, 2720, -8270>>, b4 |-> <<59800, -7100>>, b5 |-> <<33400, 846, 16000>>, s |-> <<35700, -7010, 621>>]
    [] line = "CO2-1" -> [m |-> <<1212000, -17040>>, m4 |-> <<1174000, -7050>>, m5 |-> <<1163000, -5266>>,
         n |-> <<-595000, 27800, -5210>>, n4 |-> <<-557000, -2500, 0>>, n5 |-> <<-526000, -8490>>,
         a |-> <<169000, 12600, -2800>>, a4 |-> <<455700, -121500, 13000>>, a5 |-> <<247000, -21000, 1320>>,
         b |-> <<1800, 2760, -6780>>, b4 |-> <<65700, -7940>>, b5 |-> <<38300, 841, 16900>>, s |-> <<36000, -7200, 640>>]
    [] line = "CO3-2" -> [m |-> <<1210000, -17100>>, m4 |-> <<1174000, -7228>>, m5 |-> <<1162000, -5500>>,
         n |-> <<-553000, 32900, -5700>>, n4 |-> <<-506000, -1500, 0>>, n5 |-> <<-472000, -8080>>,
         a |-> <<184300, 8405, -2485>>, a4 |-> <<525300, -150200, 16090>>, a5 |-> <<253000, -22000, 1390>>,
         b |-> <<1880, 2740, -6230>>, b4 |-> <<70700, -8790>>, b5 |-> <<31500, 879, 17000>>, s |-> <<40000, -8300, 700>>]
    [] line = "CO4-3" -> [m |-> <<1209000, -16620>>, m4 |-> <<1173000, -7457>>, m5 |-> <<1160000, -5290>>,
         n |-> <<-535000, 40400, -6570>>, n4 |-> <<-478400, 0, 0>>, n5 |-> <<-440000, -7440>>,
         a |-> <<224000, -8910, 0>>, a4 |-> <<574000, -167000, 17800>>, a5 |-> <<259000, -20600, 1200>>,
         b |-> <<2017, 2870, -11270>>, b4 |-> <<76200, -9840>>, b5 |-> <<41600, 843, 17200>>, s |-> <<42000, -9100, 790>>]
    [] line = "CO5-4" -> [m |-> <<1212000, -17960>>, m4 |-> <<1173000, -7789>>, m5 |-> <<1158000, -5359>>,
         n |-> <<-537000, 51500, -8020>>, n4 |-> <<-381000, -35900, 4190>>, n5 |-> <<-421000, -6740>>,
         a |-> <<214000, 11000, -3710>>, a4 |-> <<612000, -177000, 18800>>, a5 |-> <<287000, -25700, 1570>>,
         b |-> <<2390, 2550, -8900>>, b4 |-> <<84600, -11500>>, b5 |-> <<21800, 957, 16800>>, s |-> <<44000, -8500, 630>>]
YCI(line) ==
  CASE line = "CI1-0" -> [m |-> <<1026, 2346, 1120000>>, m4 |-> <<854000, 133000, -15700>>, m5 |-> <<4294, 2479, 1068000>>,
         n |-> <<-1451, 1893, -504600>>, n4 |-> <<-696000, 75000, -8070>>, n5 |-> <<1890, 5730, -603000>>,
         a |-> <<-741, 739, 186000>>, a4 |-> <<842000, -291000, 32000>>, a5 |-> <<104000, 16500>>,
         b |-> <<126000, -19800>>, b4 |-> <<83700, -10300>>, b5 |-> <<2090000, 520, 20400>>, s |-> <<39000, -7600, 630>>]
    [] line = "CI2-1" -> [m |-> <<1135, 2616, 1113000>>, m4 |-> <<882300, 120600, -14450>>, m5 |-> <<4370, 2380, 1070000>>,
         n |-> <<-2030, 1800, -444000>>, n4 |-> <<-490600, 5632, 0>>, n5 |-> <<1480, 6140, -531000>>,
         a |-> <<-1160, 706, 200000>>, a4 |-> <<927500, -322500, 35430>>, a5 |-> <<117000, 16900>>,
         b |-> <<154000, -25900>>, b4 |-> <<94000, -12000>>, b5 |-> <<3960000, 487, 22100>>, s |-> <<46000, -9600, 790>>]
(* c[1] + c[2] z + c[3] z^2 in 10^-7 *)
Poly(c, z) == 100 * c[1] + MulR(100 * c[2], z, 1000)
              + (IF Len(c) > 2 THEN MulR(MulR(100 * c[3], z, 1000), z, 1000) ELSE 0)
(* A exp(-z / t) in 10^-7; A and t in 1/1000 *)
Decay(A, t, z) == LET p == Power(LogN(Abs(A)) - 3 * U - MulR(43429, z, t), 7)
                  IN  IF A < 0 THEN -p ELSE p
(* c[1] exp(-z/c[2]) + c[3] *)
ExpC(c, z) == Decay(c[1], c[2], z) + 100 * c[3]
YangPars(line, z) ==
  IF line = "CII" THEN
    [m |-> IF z <= 0 THEN 121100000
           ELSE IF z < 4000 THEN Power(LogN(1211) - 2 * U + MulR(LogN(z) - 3 * U, -4105, 10000) \div 10, 7)
           ELSE IF z < 5000 THEN Poly(<<869000, 126000, -14300>>, z) ELSE Poly(<<1192000, -10680>>, z),
     n |-> IF z < 4000 THEN ExpC(<<-907, 867, -304000>>, z)
           ELSE IF z < 5000 THEN Poly(<<-546700, 105600, -11330>>, z) ELSE Poly(<<-237000, -13000>>, z),
     a |-> IF z < 4000 THEN Poly(<<135000, 45000, -8050>>, z)
           ELSE IF z < 5000 THEN Poly(<<613500, -178600, 18370>>, z) ELSE Poly(<<282000, -29800, 1960>>, z),
     b |-> IF z < 4000 THEN ExpC(<<2570, 1550, 5750>>, z)
           ELSE IF z < 5000 THEN Poly(<<44300, -5210>>, z) ELSE ExpC(<<1760000, 520, 7820>>, z),
     s |-> ExpC(<<320, 1500, 18000>>, z)]
  ELSE IF line \in {"CI1-0", "CI2-1"} THEN LET c == YCI(line) IN
    [m |-> IF z < 4000 THEN ExpC(c.m, z) ELSE IF z < 5000 THEN Poly(c.m4, z) ELSE ExpC(c.m5, z),
     n |-> IF z < 4000 THEN ExpC(c.n, z) ELSE IF z < 5000 THEN Poly(c.n4, z) ELSE ExpC(c.n5, z),
     a |-> IF z < 4000 THEN ExpC(c.a, z) ELSE IF z < 5000 THEN Poly(c.a4, z) ELSE Poly(c.a5, z),
     b |-> IF z < 4000 THEN Poly(c.b, z) ELSE IF z < 5000 THEN Poly(c.b4, z) ELSE ExpC(c.b5, z),
     s |-> Poly(c.s, z)]
  ELSE LET c == YCO(line) IN
    [m |-> IF z < 4000 THEN Poly(c.m, z) ELSE IF z < 5000 THEN Poly(c.m4, z) ELSE Poly(c.m5, z),
     n |-> IF z < 4000 THEN Poly(c.n, z) ELSE IF z < 5000 THEN Poly(c.n4, z) ELSE Poly(c.n5, z),
     a |-> IF z < 4000 THEN Poly(c.a, z) ELSE IF z < 5000 THEN Poly(c.a4, z) ELSE Poly(c.a5, z),
     b |-> IF z < 4000 THEN ExpC(c.b, z) ELSE IF z < 5000 THEN Poly(c.b4, z) ELSE ExpC(c.b5, z),
     s |-> Poly(c.s, z)]
(* u p for an exponent p in 10^-7 *)
TimesP(u, p) == LET q == p \div 1000
                    r == p - 1000 * q
                IN  MulR(u, q, 10000) + ((u * r) \div PP)
To5(p) == (p + 50) \div 100
Yang(line, h) ==
    LET p == YangPars(line, h.z)
        u == h.x - To5(p.m)
    IN  30103 + To5(p.n) + h.x - LogSum(-TimesP(u, p.a), TimesP(u, p.b))
YangDuty(h) ==       \* logarithm of the fraction of halos that are on
    IF h.z >= 4000 THEN 0
    ELSE LET m2 == To5(Poly(<<1173000, 66340>>, h.z))
             g  == Poly(<<137000, -19000, 2150>>, h.z)
         IN  -LogSum(0, TimesP(h.x - m2, g))

(* --------------------------------------------- Bethermin et al. 2017 (SIDES) *)
OnePlusZ(z) == LogN(1000 + z) - 3 * U
(* the parameters of the recipe may be changed *)
MainSequence(e, h) ==
    LET lm == h.x - 9 * U
        l1 == OnePlusZ(h.z)
        t2 == Max2(0, lm - Par(e.par, "m1", 36000) - MulR(l1, Par(e.par, "a2", 25), 10))
    IN  lm - Par(e.par, "m0", 50000) + MulR(l1, Par(e.par, "a0", 15), 10)
        - MulR(MulR(t2, t2 \div 100, 1000), Par(e.par, "a1", 3), 10)
        - (IF h.z < 500 /\ Par(e.par, "lowz", 1) = 1 THEN MulR(10000, 500 - h.z, 280) ELSE 0)
Starbursts(z) == Min2(30000, 15000 + 15 * z)       \* fraction, 10^-6
StarForming(e, h) ==
    LET fq == Power(LogN(Par(e.par, "fq", 1017)) - 4 * U + MulR(OnePlusZ(h.z), Par(e.par, "gamma", -1039), 1000), 6)
        mt == Poly(<<Par(e.par, "mt", 1053000), Par(e.par, "al1", 22320), Par(e.par, "al2", 9130)>>, h.z) \div 100
        sg == Poly(<<Par(e.par, "sg", 84880), Par(e.par, "be1", 4180), Par(e.par, "be2", -1590)>>, h.z) \div 100
        x  == Erf(MulR(h.x - mt, 10000, sg))
    IN  MulR((1000000 - fq) \div 10, (1000000 - x) \div 10, 10000) \div 2
Offset(e) == Par(e.par, "mso", LogN(87) - 2 * U)
Boost(e)  == Par(e.par, "sbo", LogN(530) - 2 * U)
Limit(e)  == Par(e.par, "lim", 4 * U)

(* ---------------------------------------------------- Behroozi et al. 2013 *)
(* The table of the public data release: redshifts in 10^-6, logarithms of the *)
(* masses, and by redshift and mass the logarithms of star-formation rates and *)
(* stellar masses (ABSENT where there are none). Rates stay constant beyond    *)
(* the masses given at a redshift, stellar masses are zero there; in between,  *)
(* values are linear in redshift and mass, beyond the table they are those of  *)
(* its edge.                                                                   *)
BTab == JsonDeserialize(IOEnv.BTABLE)
ABSENT == -100000000
BMax(i) == CHOOSE j \in 1..Len(BTab.m) : BTab.sfr[i][j] # ABSENT
               /\ \A k \in j+1..Len(BTab.m) : BTab.sfr[i][k] = ABSENT
BNode(what, i, j) ==
    IF what = "mass" THEN BTab.mass[i][j]
    ELSE IF BTab.sfr[i][j] # ABSENT THEN BTab.sfr[i][j] ELSE BTab.sfr[i][BMax(i)]
Cell(seq, x) == IF x <= seq[1] THEN 1 ELSE IF x >= seq[Len(seq)] THEN Len(seq) - 1
                ELSE CHOOSE k \in 1..Len(seq)-1 : seq[k] <= x /\ x < seq[k+1]
(* weight of the upper node, in 1/10000 *)
BWz(i, z) == LET a == BTab.z[i]
                 b == BTab.z[i+1]
             IN  IF z <= a THEN 0 ELSE IF z >= b THEN 10000 ELSE ((z - a) * 10000) \div (b - a)
BWm(j, x) == LET a == BTab.m[j]
                 b == BTab.m[j+1]
             IN  IF x <= a THEN 0 ELSE IF x >= b THEN 10000
                 ELSE LET n == Power(x - a, 6) - 1000000
                          d == Power(b - a, 6) - 1000000
                      IN  (n * 1000) \div (d \div 10)
Behroozi(what, h) ==
    LET i == Cell(BTab.z, 1000 * h.z)
        j == Cell(BTab.m, h.x)
        u == BWz(i, 1000 * h.z)
        v == BWm(j, h.x)
        L(a, b) == BNode(what, i + a, j + b)
        top == Max2(Max2(L(0, 0), L(0, 1)), Max2(L(1, 0), L(1, 1)))
        P(a, b) == IF L(a, b) = ABSENT THEN 0 ELSE Power(L(a, b) - top, 5)
        f(a) == (P(a, 0) * (10000 - v) + P(a, 1) * v) \div 1000          \* 10^-6
        w == (f(0) \div 100) * (10000 - u) + (f(1) \div 100) * u         \* 10^-8
    IN  IF top = ABSENT \/ w = 0 THEN ZERO ELSE top + LogN(w) - 8 * U

(* ------------------------------------------------------------------ the laws *)
KamSet(e, h) ==
    IF ~e.ulirg THEN KamAll
    ELSE IF 10 * U + h.x - Par(e.par, "dmf", 0) > 10 * U + LogN(6) THEN KamUlirg ELSE KamNot
NLines(e) == IF e.op = "kamenetzky16" THEN Len(e.lines) ELSE 1
(* logarithm of the mean luminosity, before duty cycle and scatter *)
Law(e, h, j) ==
    IF h.x = ZERO THEN ZERO
    ELSE LET ir == 10 * U + h.x - Par(e.par, "dmf", 0) IN
    CASE e.op = "keating16" -> IF h.x < Par(e.par, "mmin", 10 * U) THEN ZERO
                               ELSE Par(e.par, "A", LogN(63) - 8 * U) + h.x
      [] e.op = "li16" -> DivR(ir - Par(e.par, "b", -174000), Par(e.par, "a", 1370), 1000)
                          + LogN(49) - 6 * U + 3 * Par(e.par, "nu", 0)
      [] e.op = "hcn_gao" -> DivR(ir - Par(e.par, "b", 290000), Par(e.par, "a", 1000), 1000)
                             + LogN(22) - 6 * U + 3 * Par(e.par, "nu", 0)
      [] e.op = "pullen13" -> 6 * U + h.x - LogN(5) - 11 * U
      [] e.op = "lidz11" -> LogN(28) + 2 * U + h.x - 8 * U
      [] e.op = "hcn_breysse" -> LogN(17) - 16 * U + MulR(h.x, 167, 100)
      [] e.op = "kamenetzky16" ->
            LET k == KamSet(e, h)
                n == e.lines[j]
            IN  DivR(ir + Par(e.par, "fir", LogN(6) - U) - 10000 * k.b[n], k.a[n], 100)
                + LogN(49) - 6 * U + 3 * LineRatio(n)
      [] e.op = "delooze14" -> LET k == DeLooze[e.line][e.set]
                               IN  DivR(h.x - 1000 * k[2], k[1], 100)
      [] e.op = "spinoglio12" -> LET k == Spinoglio[e.line]
                                 IN  MulR(ir + LsunUnit, k[1], 100) - 1000 * k[2] - LsunUnit
      [] e.op = "uzgil14" -> LET k == Uzgil[e.line]
                             IN  MulR(ir + LsunUnit, k[1], 100) - 1000 * k[2] - LsunUnit
      [] e.op = "schaerer20" -> LET k == Schaerer[e.set] IN MulR(h.x, k[1], 100) + 1000 * k[2]
      [] e.op = "zhao13" -> DivR(ir - 451000, 95, 100)
      [] e.op = "padmanabhan19" ->
            LET l1 == OnePlusZ(h.z)
                ln == Par(e.par, "n1", LogN(419) + 9 * U) - h.x        \* log n1/M
                pw == Power(ln, 5)
            IN  IF ln > 3 * U THEN ZERO
                ELSE MulR(h.x - Par(e.par, "m1", LogN(239) - 7 * U), Par(e.par, "b", 490), 1000)
                     - MulR(pw, 4342, 10000) - MulR(pw \div 10, 945, 1000000)
                     + MulR(MulR(l1, 27, 10) - LogSum(0, MulR(l1 - LogN(29) + U, 56, 10)), Par(e.par, "a", 1790), 1000)
      [] e.op = "yang22" -> Yang(e.line, h)
      [] e.op = "behroozi_sfr" -> Behroozi("sfr", h)
      [] e.op = "behroozi_mass" -> Behroozi("mass", h)
      [] e.op = "b17_sfr" -> MainSequence(e, h) + Offset(e)
(* scatter in 10^-5 dex, and whether the linear mean is kept *)
Sigma(e, h) ==
    IF e.sig >= 0 THEN 100 * e.sig
    ELSE CASE e.op \in {"keating16", "li16", "hcn_gao", "kamenetzky16", "b17_sfr", "behroozi_sfr", "behroozi_mass"} -> 30000
           [] e.op \in {"uzgil14", "spinoglio12", "schaerer20", "zhao13"} -> 40000
           [] e.op = "delooze14" -> 100 * DeLooze[e.line][e.set][3]
           [] e.op = "yang22" -> To5(YangPars(e.line, h.z).s)
           [] OTHER -> 0
KeepsMean(e) == e.op \in {"li16", "hcn_gao", "padmanabhan19", "behroozi_sfr", "behroozi_mass"}
(* what a deviate of g (10^-4) does, in 10^-5 dex *)
Shift(e, h, g) ==
    LET s == Sigma(e, h)
    IN  MulR(s, g, 10000) - (IF KeepsMean(e) THEN LET m == s \div 100 IN MulR(m * m, 11513, 10000) \div 10 ELSE 0)
(* fraction of halos that are on, as a logarithm *)
DutyLog(e, h) ==
    CASE e.op \in {"lidz11", "hcn_breysse"} -> Par(e.par, "duty", -U)
      [] e.op = "pullen13" -> Min2(0, Par(e.par, "tsf", -U) - h.la)
      [] e.op = "yang22" -> YangDuty(h)
      [] OTHER -> 0
Cyclic(op) == op \in {"lidz11", "hcn_breysse", "pullen13", "yang22"}
Tol(e) == IF e.op \in {"yang22", "padmanabhan19", "b17_sfr"} THEN 70
          ELSE IF e.op \in {"behroozi_sfr", "behroozi_mass"} THEN 40 ELSE 12
(* the sort of value a halo may get: on with logarithm l, or zero *)
Off == [on |-> FALSE, l |-> 0]
On(l) == [on |-> TRUE, l |-> l]
Allowed(e, h, j, g, f) ==
    LET l == Law(e, h, j)
        m == IF e.scatter THEN l + Shift(e, h, g) ELSE l
    IN  IF l = ZERO THEN {Off}
        ELSE IF e.op = "b17_sfr" THEN
            LET sb == Starbursts(h.z)
                sf == StarForming(e, h)
                b  == m + Boost(e) - Offset(e)
                u1 == f[1]
                u2 == f[2]
            IN  (IF u2 >= sf - 300 THEN {Off} ELSE {})
                \cup (IF u2 <= sf + 300
                      THEN (IF u1 <= sb + 5 THEN {On(Min2(Limit(e), b))} ELSE {})
                           \cup (IF u1 >= sb - 5 THEN {On(Min2(Limit(e), m))} ELSE {})
                      ELSE {})
        ELSE IF ~Cyclic(e.op) \/ e.cycle = "none" THEN {On(m)}
        ELSE IF e.cycle = "mean" THEN {On(m + DutyLog(e, h))}
        ELSE LET d == Power(DutyLog(e, h), 6)
                 w == IF e.op = "yang22" THEN 3000 ELSE 200
             IN  IF Len(f) = 0 THEN {Off, On(m)}
                 ELSE (IF f[1] <= d + w THEN {On(m)} ELSE {}) \cup (IF f[1] >= d - w THEN {Off} ELSE {})
Near(o, a, t) == o.on = a.on /\ (a.on => Abs(o.l - a.l) <= t)

(* ------------------------------------------------------------- the machine *)
(* e.devs[i] = [g, f] holds what was drawn for halo i: one deviate per line,   *)
(* and the uniform numbers.                                                    *)
Accepts(e, i, j, o) ==
    \E a \in Allowed(e, e.halos[i], j, IF e.scatter THEN e.devs[i].g[j] ELSE 0, e.devs[i].f) : Near(o, a, Tol(e))
(* columns: name -> values, one sequence per line *)
Assign(s, name, vals) == [n \in DOMAIN s \cup {name} |-> IF n = name THEN vals ELSE s[n]]
==============================================================================
