------------------------------ MODULE LightCone ------------------------------
(* What a light cone (or light sphere) contains. An observer sits in the      *)
(* periodic, mirrored simulation box, which repeats without end; snapshot s   *)
(* fills the shell of distances it stands for. The light cone has every image *)
(* of every halo that lies in the shell of its snapshot, inside the range of  *)
(* redshifts and the field of view - exactly once, nearest first.             *)
(*                                                                            *)
(* Distances in 1/1000 Mpc/h, angles in 1e-6 rad, redshifts in 1e-6, masses   *)
(* by an integer code. An image c: s, i (halo), p = <<x,y,z>> as seen by the  *)
(* observer, z along the line of sight, d distance, z6 redshift, ra, dec, m.  *)
(* A row r of the catalogue: the same fields, as stored.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
TOL == 3
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Near(a, b, t) == Abs(a - b) <= t
(* is c inside, certainly (t = -TOL) or possibly (t = TOL)? *)
Field(g, c, t) ==
    CASE g.mode = "box" -> Abs(c.ra) <= g.half1 + t /\ Abs(c.dec) <= g.half2 + t
      [] g.mode = "circle" -> c.r < g.half1 + t
      [] g.mode = "sphere" -> TRUE
      [] g.mode = "hemisphere" -> c.p[3] > 0 - t
      [] g.mode = "quarter" -> c.p[3] > 0 - t /\ c.p[2] > 0 - t
      [] g.mode = "eighth" -> c.p[1] >= 0 - t /\ c.p[2] >= 0 - t /\ c.p[3] >= 0 - t
Shell(g, c, t) == LET b == g.shells[c.sk] IN b.lo - t <= c.d /\ c.d < b.hi + t
Inside(g, c, t) == c.heavy /\ Field(g, c, t) /\ Shell(g, c, t)
IsImage(r, c) == r.s = c.s /\ r.i = c.i /\ \A k \in 1..3 : Near(r.p[k], c.p[k], TOL)

(* what: "content" - what is in it; "look" - how it is described; "rows" and "whole" are the     *)
(* parts of the latter, of single rows and of all together; "part" - everything about single rows.  *)
(* As the former are about one halo of the simulation each, big light cones are judged in parts:    *)
(* the rows and images of some of the halos at a time.                                              *)
FailContent(g, lc, got) ==
    LET cands == lc.cands
        rows == lc.rows
        found == TLCEval(UNION {got[n] : n \in 1..Len(rows)})
        c(name, holds) == IF holds THEN {} ELSE {name}
    IN c("only what is in view, as it is seen from the observer's place",
         \A n \in 1..Len(rows) : \E k \in got[n] : Inside(g, cands[k], TOL))
       \cup c("everything in view",
              \A k \in 1..Len(cands) : Inside(g, cands[k], 0 - TOL) => k \in found)
       \cup c("nothing twice",
              \A n \in 1..Len(rows) : \A m \in n+1..Len(rows) :
                 (rows[n].i = rows[m].i /\ rows[n].s = rows[m].s) => got[n] \cap got[m] = {})
       \cup c("masses", \A n \in 1..Len(rows) : \A k \in got[n] : rows[n].m = cands[k].m)

FullTurn == 6283185
FailRows(g, lc, got) ==
    LET cands == lc.cands
        rows == lc.rows
        c(name, holds) == IF holds THEN {} ELSE {name}
    IN c("angles", \A n \in 1..Len(rows) : \A k \in got[n] :
              /\ Near(rows[n].ra, cands[k].ra, TOL) \/ Abs(rows[n].ra - cands[k].ra) >= FullTurn - TOL
              /\ Near(rows[n].dec, cands[k].dec, TOL))
       \cup c("redshifts", \A n \in 1..Len(rows) : \A k \in got[n] : Near(rows[n].z6, cands[k].z6, TOL))

FailWhole(g, lc) ==
    LET rows == lc.rows
        c(name, holds) == IF holds THEN {} ELSE {name}
    IN c("nearest first", \A n \in 1..Len(rows)-1 : rows[n].z6 <= rows[n+1].z6 + 1)
       \cup c("redshift index",
              /\ lc.zindex[1].k = 0
              /\ \A j \in 2..Len(lc.zindex) :
                   LET q == lc.zindex[j] IN
                   /\ Cardinality({n \in 1..Len(rows) : rows[n].z6 < q.z6 - 1}) <= q.k
                   /\ q.k <= Cardinality({n \in 1..Len(rows) : rows[n].z6 <= q.z6 + 1}))
       \cup c("units and powers of h", lc.units = g.units)
       \cup c("finished, with the same columns", lc.done)
       \cup c("description", /\ lc.mode = g.mode /\ lc.zmin = g.zmin /\ lc.zmax = g.zmax /\ lc.sim = g.sim
                             /\ lc.cut = g.cut /\ lc.angles = g.angles)
       \cup c("snapshots named are those that can be seen", {lc.snaps[k] : k \in 1..Len(lc.snaps)} = {g.shells[k].s : k \in 1..Len(g.shells)})
       \cup c("axes are a rotation, along the line of sight", lc.rot)

Failing(what, g, lc) ==
    LET cands == lc.cands
        rows == lc.rows
        got == TLCEval([n \in 1..Len(rows) |-> {k \in 1..Len(cands) : IsImage(rows[n], cands[k])}])
    IN (IF what \in {"content", "all", "part"} THEN FailContent(g, lc, got) ELSE {})
       \cup (IF what \in {"look", "all", "rows", "part"} THEN FailRows(g, lc, got) ELSE {})
       \cup (IF what \in {"look", "all", "whole"} THEN FailWhole(g, lc) ELSE {})
==============================================================================
