----------------------------- MODULE SimLookup -------------------------------
(* Finding a snapshot by redshift, and the heaviest halos of a snapshot.      *)
(* A simulation is a sequence of snapshots with fields index, z, lo, hi (the  *)
(* redshift interval the snapshot stands for), m (masses, descending) and     *)
(* cuts (tabulated [m, i] pairs, descending in mass). Redshifts and masses    *)
(* are integers (fixed point).                                                *)
EXTENDS Integers, Sequences, FiniteSets
None == -77777

Idx(s) == 1..Len(s)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

(* The snapshot standing for redshift z: the one of highest redshift whose    *)
(* interval starts at or below z. Outside of the covered range: an error.     *)
ZLow(s)  == Min({s[k].lo : k \in Idx(s)})
ZHigh(s) == LET t == CHOOSE k \in Idx(s) : \A j \in Idx(s) : s[j].z <= s[k].z IN s[t].hi
ZSnap(s, z) ==
    IF z < ZLow(s) \/ z > ZHigh(s) THEN None
    ELSE LET c == {k \in Idx(s) : s[k].lo <= z}
         IN CHOOSE k \in c : \A j \in c : s[j].z <= s[k].z
BySnap(s, i) == LET c == {k \in Idx(s) : s[k].index = i} IN
                IF c = {} THEN None ELSE CHOOSE k \in c : TRUE

(* How many leading halos have to be read to see all halos of at least mass   *)
(* m: those at or above the largest tabulated mass not exceeding m, and all   *)
(* of them when no tabulated mass is that small. `inh' says whether m carries *)
(* little h; the catalogue does (num/den = h).                                *)
MassIndex(s, k, m, inh, num, den) ==
    LET sn == s[k]
        low == {j \in 1..Len(sn.cuts) : IF inh THEN sn.cuts[j].m <= m ELSE sn.cuts[j].m * den <= m * num}
    IN IF low = {} THEN Len(sn.m) ELSE sn.cuts[Min(low)].i

GoodCuts(sn) == /\ \A j \in 1..Len(sn.cuts)-1 : sn.cuts[j].m > sn.cuts[j+1].m
                /\ \A j \in 1..Len(sn.cuts) : sn.cuts[j].i = Cardinality({q \in 1..Len(sn.m) : sn.m[q] >= sn.cuts[j].m})
Sorted(sn) == \A q \in 1..Len(sn.m)-1 : sn.m[q] >= sn.m[q+1]
Tiled(s) == \A k \in Idx(s) : /\ s[k].lo <= s[k].z /\ s[k].z <= s[k].hi
                              /\ \/ s[k].lo = ZLow(s)
                                 \/ \E j \in Idx(s) : s[j].hi = s[k].lo /\ s[j].z < s[k].z
                              /\ \/ s[k].hi = ZHigh(s)
                                 \/ \E j \in Idx(s) : s[j].lo = s[k].hi /\ s[j].z > s[k].z

(* What a user relies on *)
OneSnapshot(s, z) ==      \* every redshift in the range belongs to exactly one snapshot, whose interval holds it
    LET r == ZSnap(s, z) IN
    /\ (r = None) = (z < ZLow(s) \/ z > ZHigh(s))
    /\ r # None => /\ s[r].lo <= z /\ z <= s[r].hi
                   /\ (z = s[r].hi => z = ZHigh(s))
                   /\ \A j \in Idx(s) : (s[j].lo <= z /\ z < s[j].hi) => j = r
AllHeavy(s, k, m, inh, num, den) ==
    LET r == MassIndex(s, k, m, inh, num, den) IN
    /\ r \in 0..Len(s[k].m)
    /\ \A q \in 1..Len(s[k].m) : (IF inh THEN s[k].m[q] >= m ELSE s[k].m[q] * den >= m * num) => q <= r
==============================================================================
