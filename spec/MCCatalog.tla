----------------------------- MODULE MCCatalog -------------------------------
(* Formatting as a process: the heaviest row left is put next, until none is  *)
(* left; then the cuts are counted. Whatever the order among equals, the      *)
(* result is a right rendering, and the first cuts[i].i rows are exactly the  *)
(* halos at or above cut i.                                                   *)
EXTENDS Catalog
CONSTANTS MASSES, NMAX
VARIABLES rows, perm, done
Row(m, k) == [x |-> <<k * SC>>, m |-> <<m>>]
Init == /\ \E n \in 0..NMAX : \E f \in [1..n -> MASSES] : rows = [k \in 1..n |-> Row(f[k], k)]
        /\ perm = <<>> /\ done = FALSE
Left == (1..Len(rows)) \ {perm[i] : i \in 1..Len(perm)}
Put == /\ Left # {} /\ ~done
       /\ \E k \in Left : /\ \A j \in Left : rows[j].m[1] <= rows[k].m[1]
                          /\ perm' = Append(perm, k)
       /\ UNCHANGED <<rows, done>>
Finish == Left = {} /\ ~done /\ done' = TRUE /\ UNCHANGED <<rows, perm>>
Next == Put \/ Finish
M(r) == rows[perm[r]].m[1]
Count(c) == Cardinality({r \in 1..Len(rows) : rows[r].m[1] >= c})
Right == done => /\ Permutation(perm, Len(rows))
                 /\ \A r \in 1..Len(rows)-1 : M(r) >= M(r+1)
                 /\ \A i \in 1..Ncuts : \A r \in 1..Len(rows) : (M(r) >= CutMass(i)) = (r <= Count(CutMass(i)))
                 /\ \A i \in 1..Ncuts-1 : Count(CutMass(i)) <= Count(CutMass(i+1))
TablesOK == \A kind \in {"testbox", "bolshoi", "binary", "uchuu", "illustris", "dark", "tng", "tngdark"} :
    LET q == ColumnsOf(kind, FALSE) IN
    /\ \A i, j \in 1..Len(q) : i # j => q[i].n # q[j].n
    /\ \E i \in 1..Len(Basic(kind)) : Basic(kind)[i].n = "mass"
==============================================================================
