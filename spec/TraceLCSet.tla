------------------------------ MODULE TraceLCSet -----------------------------
EXTENDS LCSet, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, z, bad
SetOf(q) == {q[i] : i \in 1..Len(q)}
c(name, holds) == IF holds THEN {} ELSE {name}
ODirs(o) == [n \in {o.dirs[i].name : i \in 1..Len(o.dirs)} |->
               LET d == o.dirs[CHOOSE i \in 1..Len(o.dirs) : o.dirs[i].name = n].lcs
               IN [k \in 1..Len(d) |-> SetOf(d[k].cols)]]
(* a refused order may leave an empty place behind, or none *)
Same(a, b, e) == \/ a = b
                 \/ e.op = "order" /\ ~e.ok /\ e.name \notin DOMAIN a /\ e.name \in DOMAIN b /\ [n \in DOMAIN b \ {e.name} |-> b[n]] = a
Clauses(e, r, sim) ==
    LET o == e.obs IN
    c("refused exactly when it must be", o.err = r.err)
    \cup c("consent asked for when needed", o.used = r.used)
    \cup c("light cones and their columns", Same(ODirs(o), r.z.dirs, e))
    \cup c("warnings", o.warn = r.warn)
    \cup c("the simulation stays as it was", o.simsame)
    \cup c("what the step does not concern stays as it was",
           \A i \in 1..Len(o.dirs) : \A k \in 1..Len(o.dirs[i].lcs) :
              o.dirs[i].lcs[k].same \/ Rebuilt(z, e, o.dirs[i].name, k))
    \cup c("status", \A i \in 1..Len(o.dirs) : \A k \in 1..Len(o.dirs[i].lcs) :
              LET q == o.dirs[i].lcs[k]
              IN /\ q.basic
                 /\ (e.op \in {"add", "addpos"} /\ o.dirs[i].name = e.name /\ k <= z.mk[e.name]) => q.extra
                 /\ (e.op = "build" /\ o.dirs[i].name = e.name /\ k <= e.n) => ~q.extra)
    \cup c("the same order builds the same light cones, other dice others", o.repeat)
    \cup c("values of added columns", \A k \in 1..Len(o.new) : \A m \in 1..Len(o.new[k].cols) : ColumnOK(sim, o.new[k], o.new[k].cols[m]))
    \cup c("units and powers of h of added columns", \A k \in 1..Len(o.new) : \A m \in 1..Len(o.new[k].cols) : LabelOK(sim, o.new[k].cols[m]))
    \cup c("data types of added columns", \A k \in 1..Len(o.new) : \A m \in 1..Len(o.new[k].cols) : TypeOK(sim, o.new[k].cols[m]))
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = {}
             /\ z = [dirs |-> [k \in {} |-> 0], mk |-> [k \in {} |-> 0], keys |-> SetOf(Traces[tid].init.keys)]
TraceNext ==
    /\ bad = {} /\ l <= Len(Traces[tid].ev)
    /\ LET e == Traces[tid].ev[l]
           r == Apply(z, e)
       IN /\ bad' = Clauses(e, r, Traces[tid].init.sim)
          /\ z' = [r.z EXCEPT !.dirs = IF r.err THEN [n \in DOMAIN ODirs(e.obs) |-> IF n \in DOMAIN r.z.dirs THEN r.z.dirs[n] ELSE <<>>] ELSE @]
    /\ l' = l + 1 /\ UNCHANGED tid
TraceView == <<tid, l>>
Report == bad = {} \/ PrintT("BAD|" \o ToString(tid) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
==============================================================================
