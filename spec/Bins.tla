-------------------------------- MODULE Bins --------------------------------
(***************************************************************************)
(* Snapshot metadata: which redshift, time and distance range of the       *)
(* simulated universe each snapshot of a simulation stands for.            *)
(*                                                                         *)
(* A listing (what the archive publishes) gives every snapshot its number, *)
(* its redshift and the age of the universe there.  Metadata are made for  *)
(* the chosen snapshots, earliest first; the boundary between neighbours   *)
(* lies half way between them in time; the earliest range ends at the      *)
(* earliest snapshot itself and the latest at the present.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Abs(x) == IF x < 0 THEN -x ELSE x
Close(a, b, tol) == Abs(a - b) <= tol

\* listing: set of [num, z, age]; numbers grow with age
SortedNums(chosen) == SetToSortSeq(chosen, <)
Entry(listing, n) == CHOOSE e \in listing: e.num = n

\* the bins, in ages doubled (so that midpoints are integers): <<start, end>>
Bins(listing, chosen, age0) ==
  LET s == SortedNums(chosen) n == Len(s)
      A(i) == Entry(listing, s[i]).age
  IN [i \in 1..n |->
        [num |-> s[i],
         start |-> IF i = 1 THEN 2 * A(1) ELSE A(i-1) + A(i),
         end |-> IF i = n THEN 2 * age0 ELSE A(i) + A(i+1)]]

\* ---- what the recorded metadata must satisfy
\* row: [index, z, zlo, zhi, t0, t1, d0, d1, x0, x1 ; alo, ahi (ages of zlo, zhi), dlo, dhi (distances of zlo, zhi)]
Failing(e) ==
  LET L == {e.listing[k] : k \in 1..Len(e.listing)}
      chosen == {e.chosen[k] : k \in 1..Len(e.chosen)}
      o == e.obs  r == o.rows  n == Len(r)
      s == SortedNums(chosen)
      b == Bins(L, chosen, e.age0)
  IN IF o.err # e.mayerr THEN {"metadata are made"} ELSE IF o.err THEN {} ELSE
     (IF n = Len(s) /\ \A i \in 1..n: r[i].index = s[i] THEN {} ELSE {"the chosen snapshots, earliest first"})
  \cup (IF n # Len(s) \/ \E i \in 1..n: r[i].index # s[i] THEN {} ELSE
        (IF \A i \in 1..n: Close(r[i].z, Entry(L, s[i]).z, 2) THEN {} ELSE {"the redshift of each snapshot"})
   \cup (IF \A i \in 1..n: 2 * r[i].t0 - b[i].start \in -6..6 /\ 2 * r[i].t1 - b[i].end \in -6..6
         THEN {} ELSE {"boundaries half way in time"})
   \cup (IF /\ Close(r[1].zhi, r[1].z, 2) /\ r[n].zlo = 0 /\ r[n].d0 = 0 /\ r[n].x0 = 0
            /\ \A i \in 1..n-1: r[i].zlo = r[i+1].zhi /\ r[i].t1 = r[i+1].t0 /\ r[i].d0 = r[i+1].d1 /\ r[i].x0 = r[i+1].x1
         THEN {} ELSE {"ranges tile the past"})
   \cup (IF \A i \in 1..n: Close(r[i].alo, r[i].t1, 3) /\ Close(r[i].ahi, r[i].t0, 3)
                        /\ Close(r[i].dlo, r[i].d0, 6) /\ Close(r[i].dhi, r[i].d1, 6)
                        /\ Close(r[i].x0, r[i].d0, 6) /\ Close(r[i].x1, r[i].d1, 6)
         THEN {} ELSE {"redshifts, times and distances agree"}))
  \cup (IF o.meta = e.meta THEN {} ELSE {"the simulation's parameters"})
  \cup (IF {o.files[k] : k \in 1..Len(o.files)} = {e.files[k] : k \in 1..Len(e.files)} /\ Len(o.files) = Len(e.files) THEN {} ELSE {"the file of each snapshot"})
=============================================================================
