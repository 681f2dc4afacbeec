------------------------------- MODULE MCBins -------------------------------
(* All listings of at most NMAX snapshots over the ages 1..AMAX and all     *)
(* choices among them: the ranges tile the time from the earliest chosen    *)
(* snapshot to the present, and every moment belongs to a chosen snapshot   *)
(* nearest to it in time.                                                   *)
EXTENDS Bins
CONSTANTS NMAX, AMAX
VARIABLES listing, chosen
vars == <<listing, chosen>>

Listings == UNION {{ {[num |-> k - 1, z |-> AMAX + 1 - SetToSortSeq(S, <)[k], age |-> SetToSortSeq(S, <)[k]] : k \in 1..n}
                     : S \in {T \in SUBSET (1..AMAX): Cardinality(T) = n}} : n \in 1..NMAX}
Init == listing \in Listings /\ chosen \in (SUBSET (0..NMAX-1)) \ {{}} /\ \A c \in chosen: \E e \in listing: e.num = c
Next == UNCHANGED vars

Age0 == AMAX + 1
B == Bins(listing, chosen, Age0)
Tiles == /\ B[1].start = 2 * Entry(listing, B[1].num).age
         /\ B[Len(B)].end = 2 * Age0
         /\ \A i \in 1..Len(B)-1: B[i].end = B[i+1].start
         /\ \A i \in 1..Len(B): B[i].start < B[i].end
Nearest == \A t \in (2 * Entry(listing, B[1].num).age)..(2*Age0 - 1): 
             \E i \in 1..Len(B): /\ B[i].start <= t /\ t < B[i].end
                                 /\ \A j \in 1..Len(B): Abs(t - 2*Entry(listing, B[i].num).age) <= Abs(t - 2*Entry(listing, B[j].num).age)
Own == \A i \in 1..Len(B): LET a == 2 * Entry(listing, B[i].num).age IN B[i].start <= a /\ a <= B[i].end
=============================================================================
