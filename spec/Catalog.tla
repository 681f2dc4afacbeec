------------------------------ MODULE Catalog --------------------------------
(* Formatting one snapshot: a raw table (rows of raw fields) becomes a table  *)
(* of columns, heaviest halo first, with a table of mass cuts.                *)
(* Masses are logarithms (10^4 per decade); other values are fixed point,     *)
(* those of e10/mdot columns in units of 10^7.                                *)
EXTENDS Columns, FiniteSets
CONSTANT SC
LogH == 3010          \* -log10(h) for h = 1/2
Ncuts == 141
CutMass(i) == 200000 - 1000 * (i - 1)     \* from 10^20 down in tenths of a decade

(* value v of a raw field, converted                                          *)
Conv(rule, v, box) ==
    CASE rule = "id" -> v
      [] rule = "wrap" -> v % box
      [] rule = "kilo" -> v \div 1000
      [] rule = "h" -> v \div 2
      [] rule = "e10" -> v * 1000
      [] rule = "mdot" -> (v * 1000000 + 489) \div 978
      [] rule = "mass" -> v
      [] rule = "massh" -> v - LogH
      [] rule = "mass10" -> v + 100000
Near(rule, a, b) == IF rule \in {"mdot", "mass", "massh", "mass10"} THEN a - b \in -1..1
                    ELSE IF rule = "e10" THEN a - b \in -(1 + b \div 1000000)..(1 + b \div 1000000) ELSE a = b

Value(col, row, box) == Conv(col.rule, row[col.raw][col.k], box)
MassCol(kind) == CHOOSE i \in 1..Len(Basic(kind)) : Basic(kind)[i].n = "mass"
Mass(kind, row, box) == Value(Basic(kind)[MassCol(kind)], row, box)
ColumnsOf(kind, basic) == IF basic THEN Basic(kind) ELSE Basic(kind) \o Other(kind)

(* A table t (column name -> values) with cuts q is a right rendering of rows *)
(* iff perm maps its rows one-to-one to raw rows, all columns alike, masses   *)
(* never increase, and every cut counts the halos at or above it.             *)
Aligned(kind, basic, rows, t, perm, box) ==
    \A i \in 1..Len(ColumnsOf(kind, basic)) :
        LET col == ColumnsOf(kind, basic)[i] IN
        /\ col.n \in DOMAIN t /\ Len(t[col.n]) = Len(rows)
        /\ \A r \in 1..Len(rows) : Near(col.rule, t[col.n][r], Value(col, rows[perm[r]], box))
Permutation(perm, n) == Len(perm) = n /\ {perm[i] : i \in 1..n} = 1..n
HeaviestFirst(kind, rows, perm, box) ==
    \A r \in 1..Len(rows)-1 : Mass(kind, rows[perm[r]], box) >= Mass(kind, rows[perm[r+1]], box)
CutsRight(kind, rows, q, box) ==
    /\ Len(q) = Ncuts
    /\ \A i \in 1..Ncuts : /\ q[i].m - CutMass(i) \in -1..1
                           /\ q[i].i = Cardinality({r \in 1..Len(rows) : Mass(kind, rows[r], box) >= CutMass(i)})
==============================================================================
