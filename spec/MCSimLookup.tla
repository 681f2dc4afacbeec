---------------------------- MODULE MCSimLookup ------------------------------
EXTENDS SimLookup
CONSTANTS ZSET, MASSES, CUTS, NMAX
VARIABLE s
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET x == Min(S) IN <<x>> \o Asc(S \ {x})
Desc(S) == LET a == Asc(S) IN [i \in 1..Len(a) |-> a[Len(a) + 1 - i]]
Seqs == UNION {{q \in [1..n -> MASSES] : \A i \in 1..n-1 : q[i] >= q[i+1]} : n \in 0..NMAX}
Snap(zs, k, m, cs) ==
    [index |-> (7 * k) % 5, z |-> zs[k], lo |-> IF k = 1 THEN 0 ELSE (zs[k-1] + zs[k]) \div 2,
     hi |-> IF k = Len(zs) THEN zs[k] ELSE (zs[k] + zs[k+1]) \div 2, m |-> m,
     cuts |-> [j \in 1..Len(cs) |-> [m |-> cs[j], i |-> Cardinality({q \in 1..Len(m) : m[q] >= cs[j]})]]]
Init == \E Z \in SUBSET ZSET, m \in Seqs, C \in SUBSET CUTS :
          /\ Z # {} /\ Cardinality(Z) <= 4
          /\ s = LET zs == Asc(Z) c == Desc(C \cup {1000}) IN [k \in 1..Len(zs) |-> Snap(zs, k, m, c)]
Next == UNCHANGED s
Queries == -1 .. (Max(ZSET) + 1)
Inv == /\ Tiled(s)
       /\ \A k \in Idx(s) : GoodCuts(s[k]) /\ Sorted(s[k])
       /\ \A z \in Queries : OneSnapshot(s, z)
       /\ \A k \in {1}, m \in 0..14, inh \in BOOLEAN : AllHeavy(s, k, m, inh, 1, 2)
==============================================================================
