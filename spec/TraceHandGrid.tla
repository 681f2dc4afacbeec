---------------------------- MODULE TraceHandGrid -----------------------------
(* Traces of a real catalogue being gridded, decided against HandGrid.         *)
EXTENDS HandGrid, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
FromEntries(es) == [n \in {es[i].n : i \in 1..Len(es)} |->
                      es[CHOOSE i \in 1..Len(es) : es[i].n = n]]
InitState(c) ==
    [n |-> c.n,
     disk |-> LET d == FromEntries(c.disk) IN
              [k \in DOMAIN d |-> [v |-> d[k].v, hd |-> d[k].hd, u |-> d[k].u]],
     mem |-> [k \in {} |-> 0], gen |-> {}, act |-> 1..c.n, dfl |-> c.dfl,
     ext |-> LET x == FromEntries(c.ext) IN [k \in DOMAIN x |-> x[k].x]]
SeqIsSet(q, S) == Len(q) = Cardinality(S) /\ {q[i] : i \in 1..Len(q)} = S
c(name, holds) == IF holds THEN {} ELSE {name}
GridClauses(g, o) ==
    c("axes of the grid", \A k \in 1..3 : o.axes[k] = g.axes[k])
    \cup c("properties gridded", o.np = g.np)
    \cup c("halos gridded", o.nobj = g.nobj)
    \cup c("values in the cells", SeqIsSet(o.cells, g.cells))
Clauses(r, o) ==
    LET t == r.s IN
    c("the call fails exactly when it must", o.err = r.err)
    \cup (IF o.err \/ r.err \/ o.grid = <<>> THEN {} ELSE GridClauses(r.out[1], o.grid[1]))
    \cup c("returned values", o.err \/ r.err \/ o.grid # <<>> \/ o.out = r.out)
    \cup c("arguments left as they were", o.argsame)
    \cup c("known properties", SeqIsSet(o.any, All(t)))
    \cup c("loaded properties", SeqIsSet(o.loaded, DOMAIN t.mem))
    \cup c("active objects", o.nact = Cardinality(t.act) /\ {o.act[i] : i \in 1..Len(o.act)} = t.act)
    \cup c("property values", \A i \in 1..Len(o.vals) :
              LET p == o.vals[i] IN
              p.n \in All(t) => /\ p.vh = Ret(t, p.n, TRUE, TRUE)
                                /\ p.vn = Ret(t, p.n, TRUE, FALSE)
                                /\ p.va = Ret(t, p.n, FALSE, t.dfl))
    \cup c("file content", /\ Len(o.disk) = Cardinality(DOMAIN t.disk)
                           /\ \A i \in 1..Len(o.disk) :
                                LET d == o.disk[i] IN
                                d.n \in DOMAIN t.disk /\
                                [v |-> d.v, hd |-> d.hd, u |-> d.u] = t.disk[d.n])
VARIABLES tid, l, s, bad
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ s = InitState(Traces[tid].init)
TraceNext ==
    /\ bad = {} /\ l <= Len(Traces[tid].ev)
    /\ LET e == Traces[tid].ev[l]
           r == GApply(s, Traces[tid].geo, e)
       IN  s' = r.s /\ bad' = Clauses(r, e.obs)
    /\ l' = l + 1 /\ UNCHANGED tid
TraceView == <<tid, l>>
Report == bad = {} \/ PrintT("BAD|" \o ToString(tid) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
==============================================================================
