---------------------------- MODULE TracePrescribe ----------------------------
(* Calls of the real prescriptions, decided against Prescribe.                 *)
EXTENDS Prescribe, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE)
c(name, holds) == IF holds THEN {} ELSE {name}
Clauses(e, o) ==
    LET n == Len(e.halos)
        shape == Len(o.out) = NLines(e) /\ \A j \in 1..Len(o.out) : Len(o.out[j]) = n
    IN
    c("the call fails exactly when it must", o.err = e.bad)
    \cup (IF o.err \/ e.bad THEN {} ELSE
            c("one value per halo and line", shape)
            \cup (IF ~shape THEN {} ELSE
                  c("scatter drawn from the caller's generator", e.scatter => \A i \in 1..n : Len(e.devs[i].g) = NLines(e))
                  \cup (IF e.scatter /\ \E i \in 1..n : Len(e.devs[i].g) # NLines(e) THEN {} ELSE
                        c("values", \A i \in 1..n : \A j \in 1..NLines(e) : Accepts(e, i, j, o.out[j][i])))))
    \cup c("arguments left as they were", o.same)
    \cup c("the same again from the same generator", o.again)
    \cup c("nothing drawn from any other generator", o.alone)
    \cup c("earlier results left as they were", o.kept)
VARIABLES tid, l, s, bad
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ s = [x \in {} |-> 0]
TraceNext ==
    /\ bad = {} /\ l <= Len(Traces[tid].ev)
    /\ LET e == Traces[tid].ev[l] IN
       /\ s' = IF e.bad THEN s ELSE Assign(s, e.col, l)
       /\ bad' = Clauses(e, e.obs) \cup c("columns", {e.obs.cols[i] : i \in 1..Len(e.obs.cols)} = DOMAIN s')
    /\ l' = l + 1 /\ UNCHANGED tid
TraceView == <<tid, l>>
Report == bad = {} \/ PrintT("BAD|" \o ToString(tid) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
==============================================================================
