------------------------------- MODULE LCView --------------------------------
(* Looking at light cones one by one or many at a time. A state z is          *)
(*   lc    sequence of Handler states, one per light cone on disk             *)
(*   its   the light cones (indices) the iterator goes through, in order      *)
(*   geo   sequence of [shape, a, asp, zmin, zmax]: a in 1/1024 rad, the      *)
(*         aspect in 1/16, redshifts in 1/SC                                  *)
(* The iterator does to each of its light cones, in order, what its call      *)
(* does to one; it stops at the first that refuses.                           *)
EXTENDS Handler

Geo(g) == [k \in DOMAIN g \ {"cosmo"} |-> g[k]]
Alike(z, its) == \A i, j \in 1..Len(its) : z.geo[its[i]] = z.geo[its[j]]
ZOk(z) == [z |-> z, err |-> FALSE, outs |-> <<>>]
ZErr(z) == [z |-> z, err |-> TRUE, outs |-> <<>>]

(* ---- the evolution of a statistic: bin by bin, over all halos, bins sorted *)
Sorted(q) == SortSeq(q, LAMBDA a, b : a < b)
Bin(s, bins, b) == [s EXCEPT !.act = {i \in 1..s.n : InRange(Val(s, "redshift")[i], bins[b], bins[b + 1])}]
BinOut(s, e, bins, b) ==
    DoStat(Bin(s, bins, b), [e EXCEPT !.op = "stat"]).out
      \o (IF e.kzmin THEN <<bins[b]>> ELSE <<>>) \o (IF e.kzmax THEN <<bins[b + 1]>> ELSE <<>>)
DoEvo(s, g, e) ==
    LET bins == Sorted(e.bins)
        nb == Len(bins) - 1
        bad == \/ nb >= 1 /\ (~Known(s, e.x) \/ ~Known(s, e.y))
               \/ e.fail \in 1..nb
               \/ e.kvol /\ nb >= 1 /\ (bins[1] < g.zmin \/ bins[nb + 1] > g.zmax)
    IN IF bad THEN Err(s)
       ELSE Give(s, <<bins>> \o [b \in 1..(IF nb > 0 THEN nb ELSE 0) |-> BinOut(s, e, bins, b)])

(* ---- volumes: the part of the shell the light cone, or a part of it, takes up *)
Spheres == {"sphere", "hemisphere", "quarter", "eighth"}
Sub(g, e) ==
    LET sh == IF e.shape = "" THEN g.shape ELSE e.shape
        a  == IF e.a < 0 THEN g.a ELSE e.a
        sp == IF e.asp < 0 THEN g.asp ELSE e.asp
    IN [shape |-> sh, a |-> a, asp |-> sp, lo |-> IF e.lo < 0 THEN g.zmin ELSE e.lo, hi |-> IF e.hi < 0 THEN g.zmax ELSE e.hi]
Fits(g, q) ==
    /\ q.lo >= g.zmin /\ q.hi <= g.zmax
    /\ \/ q.shape \in Spheres /\ q.shape = g.shape
       \/ q.shape = "box" /\ g.shape = "box" /\ q.a <= g.a /\ q.a * q.asp <= g.a * g.asp
       \/ q.shape = "box" /\ g.shape = "circle" /\ q.a * q.a * (256 + q.asp * q.asp) <= g.a * g.a * 256
       \/ q.shape = "circle" /\ g.shape = "circle" /\ q.a <= g.a
       \/ q.shape = "circle" /\ g.shape = "box" /\ q.a <= g.a /\ 16 * q.a <= g.a * g.asp
(* the solid angle, in 1e-6 sr *)
Area(q) == CASE q.shape = "sphere" -> 12566371 [] q.shape = "hemisphere" -> 6283185
             [] q.shape = "quarter" -> 3141593 [] q.shape = "eighth" -> 1570796
             [] q.shape = "box" -> (q.a * q.a * q.asp * 596) \div 10000
             [] q.shape = "circle" -> (q.a * q.a * 749) \div 1000
AbsI(x) == IF x < 0 THEN 0 - x ELSE x
AreaOK(got, q) == AbsI(got - Area(q)) * 300 <= Area(q) + 600

Call(z, k, e) == IF e.op = "evo" THEN DoEvo(z.lc[k], z.geo[k], e) ELSE Apply(z.lc[k], e)

RECURSIVE Each(_, _, _, _)
Each(z, e, i, outs) ==
    IF i > Len(z.its) THEN [z |-> z, err |-> FALSE, outs |-> outs]
    ELSE LET k == z.its[i]
             r == Call(z, k, e)
             y == [z EXCEPT !.lc[k] = r.s]
         IN IF r.err THEN ZErr(y) ELSE Each(y, e, i + 1, Append(outs, r.out))

ZApply(z, e) ==
    CASE e.op = "each" -> Each(z, e.call, 1, <<>>)
      [] e.op = "one"  -> LET r == Call(z, e.k, e.call) IN [z |-> [z EXCEPT !.lc[e.k] = r.s], err |-> r.err, outs |-> <<r.out>>]
      [] e.op = "iter" -> (* e.its: as the code reports them; asked for or all of them *)
            IF e.missing \/ (e.req /\ ~Alike(z, e.its)) THEN ZErr(z)
            ELSE ZOk([z EXCEPT !.its = e.its, !.lc = [k \in 1..Len(z.lc) |-> Reopen(z.lc[k], e.dfl)]])
      [] e.op = "volume" ->
            IF e.number = 0 /\ ~Alike(z, z.its) THEN ZErr(z)
            ELSE IF e.number # 0 /\ ~\E i \in 1..Len(z.its) : z.its[i] = e.number THEN ZErr(z)
            ELSE LET g == z.geo[IF e.number = 0 THEN z.its[1] ELSE e.number] IN
                 IF Fits(g, Sub(g, e)) THEN ZOk(z) ELSE ZErr(z)
------------------------------------------------------------------------------
(* looking changes nothing: only what is asked to change does, in the light   *)
(* cones gone through                                                          *)
Looks == {"evo", "stat", "ret"}
StepOKZ(z, e, y) ==
    /\ (e.op \in {"each", "one"} /\ e.call.op \in Looks) => y = z
    /\ e.op = "volume" => y = z
    /\ e.op = "each" => \A k \in 1..Len(z.lc) : y.lc[k] # z.lc[k] => \E i \in 1..Len(z.its) : z.its[i] = k
    /\ e.op = "one" => \A k \in 1..Len(z.lc) : y.lc[k] # z.lc[k] => k = e.k
==============================================================================
