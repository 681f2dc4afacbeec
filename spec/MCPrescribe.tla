----------------------------- MODULE MCPrescribe ------------------------------
(* Every prescription of a menu assigned after every other. The laws           *)
(* themselves are checked for what the literature says of them all: brighter   *)
(* with mass or star-formation rate, no jumps where a fit passes from one      *)
(* redshift range to the next, duty cycles that are fractions, scatter that    *)
(* dims the median when it has to keep the mean.                               *)
EXTENDS Prescribe, TLC, TLCExt, Json, IOUtils
Menu == JsonDeserialize(IOEnv.MENU)
VARIABLES s, last
vars == <<s, last>>
Do(i) == last' = i /\ s' = IF Menu[i].bad THEN s ELSE Assign(s, Menu[i].col, i)
Init == s = [x \in {} |-> 0] /\ last = 0 /\ PrintT(<<"I", TLCFP(s)>>)
Deterministic == \E i \in 1..Len(Menu) : ~Menu[i].scatter /\ Menu[i].cycle # "random" /\ Do(i)
Random        == \E i \in 1..Len(Menu) : (Menu[i].scatter \/ Menu[i].cycle = "random") /\ Do(i)
Next == Deterministic \/ Random
Emit == PrintT(<<"E", TLCFP(s), last', TLCFP(s')>>)
View == s
Steady(e) == e.op \notin {"yang22", "b17_sfr"} /\ ~(e.op = "kamenetzky16" /\ e.ulirg)
Inv == last = 0 \/ LET e == Menu[last] IN
    e.bad \/
    /\ Steady(e) => \A i, k \in 1..Len(e.halos) :
          LET p == e.halos[i]
              q == e.halos[k]
          IN  (p.x < q.x /\ p.z = q.z) => \A j \in 1..NLines(e) : Law(e, p, j) <= Law(e, q, j)
    /\ \A i \in 1..Len(e.halos) : e.halos[i].x # ZERO => DutyLog(e, e.halos[i]) <= 0
    /\ \A i \in 1..Len(e.halos) : LET d == Shift(e, e.halos[i], 0)
                                  IN  IF KeepsMean(e) /\ Sigma(e, e.halos[i]) > 100 THEN d < 0 ELSE d = 0
    /\ \A i \in 1..Len(e.halos) : \A j \in 1..NLines(e) :
          e.halos[i].x # ZERO => Allowed(e, e.halos[i], j, 0, <<0, 0>>) # {}
Lines == {"CII", "CI1-0", "CI2-1", "CO1-0", "CO2-1", "CO3-2", "CO4-3", "CO5-4"}
Plain == [par |-> <<>>]
H(x, z) == [x |-> x, z |-> z, la |-> 0]
ASSUME \A n \in Lines : \A z \in {4000, 5000} : \A m \in 20..28 :
          Abs(Yang(n, H(m * 50000, z)) - Yang(n, H(m * 50000, z - 1))) < 12000
ASSUME \A z \in {0, 100, 499, 1000, 2000, 6000} : \A m \in 14..24 :
          LET f == StarForming(Plain, H(m * 50000, z)) IN f >= 0 /\ f <= 1000000 /\ f >= StarForming(Plain, H(m * 50000 + 1000, z)) - 3
ASSUME \A m \in 14..24 : Abs(MainSequence(Plain, H(m * 50000, 500)) - MainSequence(Plain, H(m * 50000, 499))) < 300
==============================================================================
