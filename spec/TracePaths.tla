------------------------------ MODULE TracePaths -----------------------------
EXTENDS Paths, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, p, bad
c(name, holds) == IF holds THEN {} ELSE {name}
MapOf(q) == [n \in {q[i].n : i \in 1..Len(q)} |-> q[CHOOSE i \in 1..Len(q) : q[i].n = n].d]
Same(o, t) ==    \* an observed registry object is t
    /\ (IF o.known THEN o.root = t.root ELSE t.root = None)
    /\ \A k \in Kinds : MapOf(o[k]) = t.m[k]
Clauses(e, r) ==
    LET o == e.obs IN
    c("the call fails exactly when it must", o.err = r.err)
    \cup c("the open registry", Same(o.cur, r.p.cur))
    \cup c("the registry after a restart", Same(o.disk, Load(r.p)))
    \cup c("folders made", \A i \in 1..Len(o.dirs) : o.dirs[i].there = (o.dirs[i].d \in r.p.dirs))
    \cup c("where the catalogue looks for data", e.op # "cat" \/ r.err \/ o.err \/ o.path = CatPath(p, e))
P0(i) == [file |-> None, regs |-> [r \in {} |-> 0], cur |-> [root |-> None, m |-> NoRegs],
          dirs |-> {i.dirs[j] : j \in 1..Len(i.dirs)}]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ p = P0(Traces[tid].init)
TraceNext ==
    /\ bad = {} /\ l <= Len(Traces[tid].ev)
    /\ LET e == Traces[tid].ev[l] r == Apply(p, e) IN p' = r.p /\ bad' = Clauses(e, r)
    /\ l' = l + 1 /\ UNCHANGED tid
TraceView == <<tid, l>>
Report == bad = {} \/ PrintT("BAD|" \o ToString(tid) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
==============================================================================
