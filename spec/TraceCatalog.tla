---------------------------- MODULE TraceCatalog -----------------------------
EXTENDS Catalog, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, bad
c(name, holds) == IF holds THEN {} ELSE {name}
(* raw fields come as [n, v] with v the rows' component lists *)
FieldsOf(e) == {e.raw[i].n : i \in 1..Len(e.raw)}
Rows(e) == [r \in 1..e.n |-> [f \in FieldsOf(e) |-> e.raw[CHOOSE i \in 1..Len(e.raw) : e.raw[i].n = f].v[r]]]
Table(o) == [n \in {o.cols[i].n : i \in 1..Len(o.cols)} |-> o.cols[CHOOSE i \in 1..Len(o.cols) : o.cols[i].n = n].v]
(* rows are recognised by their first position coordinate, which differs      *)
Perm(e, o, box) ==
    LET col == Basic(e.kind)[1]
        v == Table(o)[col.n]
        rows == Rows(e)
    IN [r \in 1..Len(v) |-> LET q == {k \in 1..e.n : Value(col, rows[k], box) = v[r]} IN
                            IF q = {} THEN 0 ELSE CHOOSE k \in q : TRUE]
Clauses(e) ==
    LET o == e.obs
        want == ColumnsOf(e.kind, e.basic)
        names == {want[i].n : i \in 1..Len(want)}
        have == {o.cols[i].n : i \in 1..Len(o.cols)}
        rows == Rows(e)
        perm == Perm(e, o, e.box)
    IN IF o.err THEN {"formatting works"}
       ELSE c("the columns there are", have = names)
       \cup c("one entry per halo in every column", \A i \in 1..Len(o.cols) : o.cols[i].flat /\ Len(o.cols[i].v) = e.n)
       \cup c("units and powers of h", \A i \in 1..Len(o.cols) : \A j \in 1..Len(want) :
                want[j].n = o.cols[i].n => o.cols[i].unit = want[j].unit /\ o.cols[i].hd = want[j].hd)
       \cup (IF have = names /\ (\A i \in 1..Len(o.cols) : Len(o.cols[i].v) = e.n)
             THEN c("every raw halo exactly once", Permutation(perm, e.n))
                  \cup (IF Permutation(perm, e.n)
                        THEN c("columns converted and kept together", Aligned(e.kind, e.basic, rows, Table(o), perm, e.box))
                             \cup c("heaviest halo first", HeaviestFirst(e.kind, rows, perm, e.box))
                             \cup c("mass cuts", CutsRight(e.kind, rows, o.cuts, e.box))
                        ELSE {})
             ELSE {})
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ bad = {}
TraceNext == /\ bad = {} /\ l <= Len(Traces[tid].ev)
             /\ bad' = Clauses(Traces[tid].ev[l])
             /\ l' = l + 1 /\ UNCHANGED tid
TraceView == <<tid, l>>
Report == bad = {} \/ PrintT("BAD|" \o ToString(tid) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
==============================================================================
