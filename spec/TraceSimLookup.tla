--------------------------- MODULE TraceSimLookup ----------------------------
EXTENDS SimLookup, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, bad
c(name, holds) == IF holds THEN {} ELSE {name}
Clauses(s, e) ==
    LET o == e.obs IN
    CASE e.op = "z" ->
           LET r == ZSnap(s, e.z) IN
           c("fails exactly outside the covered redshifts", o.err = (r = None))
           \cup c("snapshot found by redshift", o.err \/ r = None \/ o.index = s[r].index)
      [] e.op = "open" ->
           LET r == ZSnap(s, e.z) IN
           c("fails exactly outside the covered redshifts", o.err = (r = None))
           \cup c("redshift of the snapshot opened", o.err \/ r = None \/ o.z = s[r].z)
           \cup c("halos of the snapshot opened", o.err \/ r = None \/ o.m = s[r].m)
      [] e.op = "meta" ->
           LET r == BySnap(s, e.i) IN
           c("fails exactly for unknown snapshots", o.err = (r = None))
           \cup c("metadata of the snapshot", o.err \/ r = None \/
                    (o.index = e.i /\ o.z = s[r].z /\ o.lo = s[r].lo /\ o.hi = s[r].hi))
      [] e.op = "mass" ->
           LET r == BySnap(s, e.i) IN
           c("fails exactly for unknown snapshots", o.err = (r = None))
           \cup c("contains every halo heavy enough", o.err \/ r = None \/
                   \A q \in 1..Len(s[r].m) : (IF e.inh THEN s[r].m[q] >= e.m ELSE s[r].m[q] * e.den >= e.m * e.num) => q <= o.index)
           \cup c("halos at or above the tabulated mass", o.err \/ r = None \/ o.index = MassIndex(s, r, e.m, e.inh, e.num, e.den))
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ bad = {}
TraceNext ==
    /\ bad = {} /\ l <= Len(Traces[tid].ev)
    /\ bad' = Clauses(Traces[tid].init.s, Traces[tid].ev[l])
    /\ l' = l + 1 /\ UNCHANGED tid
TraceView == <<tid, l>>
Report == bad = {} \/ PrintT("BAD|" \o ToString(tid) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
==============================================================================
