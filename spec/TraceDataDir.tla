----------------------------- MODULE TraceDataDir ----------------------------
EXTENDS DataDir, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, z, bad
c(name, holds) == IF holds THEN {} ELSE {name}
SetOf(q) == {q[i] : i \in 1..Len(q)}
(* the observation, in the terms of the specification *)
ORaw(o) == [k \in {<<o.raw[i].s, o.raw[i].f>> : i \in 1..Len(o.raw)} |->
              o.raw[CHOOSE i \in 1..Len(o.raw) : k = <<o.raw[i].s, o.raw[i].f>>].v]
OData(o) == [ex |-> o.ex,
             g |-> [s \in {o.g[i].s : i \in 1..Len(o.g)} |->
                      LET x == o.g[CHOOSE i \in 1..Len(o.g) : o.g[i].s = s] IN [v |-> x.v, b |-> x.b]]]
OMeta(o) == IF o.hasmeta THEN SetOf(o.meta) ELSE None
Mid(e, r) == Breaks(z, e) \/ (r.err /\ e.op = "format" /\ ~Refused(z, e))
Clauses(e, r) ==
    LET o == e.obs IN
    c("the call fails exactly when it must", o.err = r.err \/ (e.op = "format" /\ e.full > 0 /\ (o.err \/ OData(o) = Apply(z, [e EXCEPT !.full = 0]).z.data)))
    \cup c("metadata on disk", OMeta(o) = r.z.meta)
    \cup c("files outside the raw folder left alone", o.safe)
    \cup c("content of raw files", \A i \in 1..Len(o.raw) : o.raw[i].v # -1)
    \cup c("content of formatted snapshots", \A i \in 1..Len(o.g) : o.g[i].ok)
    \cup c("snapshots listed are the snapshots there", o.ex => SetOf(o.listed) = DOMAIN OData(o).g
              /\ Len(o.listed) = Cardinality(DOMAIN OData(o).g) /\ o.number = Len(o.listed))
    \cup c("the raw folder", o.dir = r.z.dir /\ o.alien = r.z.alien)
    \cup (IF Mid(e, r)
          THEN (IF e.op = "format" THEN c("an interrupted formatting leaves whole snapshots", FormatMid(z, e, OData(o), ORaw(o)))
                ELSE c("an interrupted download leaves whole files", DownloadMid(z, e, ORaw(o)) /\ OData(o) = r.z.data))
          ELSE c("raw files present", ORaw(o) = r.z.raw)
               \cup c("formatted snapshots", OData(o) = r.z.data))
Init0(i) == [web |-> [s \in 0..i.n-1 |-> 1], raw |-> [k \in {} |-> 0], dir |-> FALSE, alien |-> FALSE, meta |-> None,
             inst |-> [snaps |-> 0..i.n-1, meta |-> None],
             data |-> [ex |-> FALSE, g |-> [s \in {} |-> 0]], parts |-> 1..i.parts, arch |-> i.arch]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ z = Init0(Traces[tid].init)
TraceNext ==
    /\ bad = {} /\ l <= Len(Traces[tid].ev)
    /\ LET e == Traces[tid].ev[l]
           r == Apply(z, e)
       IN  /\ bad' = Clauses(e, r)
           /\ z' = IF Mid(e, r) THEN [r.z EXCEPT !.raw = ORaw(e.obs), !.data = OData(e.obs)] ELSE r.z
    /\ l' = l + 1 /\ UNCHANGED tid
TraceView == <<tid, l>>
Report == bad = {} \/ PrintT("BAD|" \o ToString(tid) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
==============================================================================
