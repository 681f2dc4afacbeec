--------------------------- MODULE TraceSimHandler ---------------------------
EXTENDS SimHandler, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
FromEntries(es) == [n \in {es[i].n : i \in 1..Len(es)} |->
                      es[CHOOSE i \in 1..Len(es) : es[i].n = n]]
InitState(c) ==
    [n |-> c.n,
     disk |-> LET d == FromEntries(c.disk) IN
              [k \in DOMAIN d |-> [v |-> d[k].v, hd |-> d[k].hd, u |-> d[k].u]],
     mem |-> [k \in {} |-> 0], gen |-> {}, act |-> 1..c.n, dfl |-> c.dfl,
     ext |-> LET x == FromEntries(c.ext) IN [k \in DOMAIN x |-> x[k].x]]
SeqIsSet(q, S) == Len(q) = Cardinality(S) /\ {q[i] : i \in 1..Len(q)} = S
c(name, holds) == IF holds THEN {} ELSE {name}

(* one snapshot t (as a handler shows it) against the observation o of it *)
SnapClauses(t, o) ==
    c("known properties", SeqIsSet(o.any, All(t)))
    \cup c("saved properties", SeqIsSet(o.saved, DOMAIN t.disk))
    \cup c("loaded properties", SeqIsSet(o.loaded, DOMAIN t.mem))
    \cup c("active objects", o.nact = Cardinality(t.act) /\ {o.act[i] : i \in 1..Len(o.act)} = t.act)
    \cup c("property values", \A i \in 1..Len(o.vals) :
              LET p == o.vals[i] IN
              p.n \in All(t) => /\ p.vh = Ret(t, p.n, TRUE, TRUE)
                                /\ p.vn = Ret(t, p.n, TRUE, FALSE)
                                /\ p.va = Ret(t, p.n, FALSE, t.dfl))
    \cup c("file content", /\ Len(o.disk) = Cardinality(DOMAIN t.disk)
                           /\ \A i \in 1..Len(o.disk) :
                                LET d == o.disk[i] IN
                                d.n \in DOMAIN t.disk /\
                                [v |-> d.v, hd |-> d.hd, u |-> d.u] = t.disk[d.n])
Clauses(r, e) ==
    LET o == e.obs IN
    c("the call fails exactly when it must", o.err = r.err)
    \cup c("returned values", o.err \/ r.err \/ e.op \notin {"stat", "one"} \/ o.outs = r.outs)
    \cup c("returned redshifts", e.op # "stat" \/ o.err \/ r.err \/
             o.zs = [k \in 1..Len(r.z.sn) |-> r.z.sn[k].ext["redshift"]])
    \cup c("number of snapshots", Len(o.sn) = Len(r.z.sn))
    \cup UNION {SnapClauses(View(r.z, k), o.sn[k]) : k \in 1..Len(r.z.sn)}
VARIABLES tid, l, z, bad
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = {}
             /\ LET i == Traces[tid].init IN
                z = [sn |-> [k \in 1..Len(i.sn) |-> InitState(i.sn[k])], pers |-> i.pers, dfl |-> i.dfl]
TraceNext ==
    /\ bad = {} /\ l <= Len(Traces[tid].ev)
    /\ LET e == Traces[tid].ev[l]
           r == ZApply(z, e)
       IN  z' = r.z /\ bad' = Clauses(r, e)
    /\ l' = l + 1 /\ UNCHANGED tid
TraceView == <<tid, l>>
Report == bad = {} \/ PrintT("BAD|" \o ToString(tid) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
==============================================================================
