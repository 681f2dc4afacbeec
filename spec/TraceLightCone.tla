--------------------------- MODULE TraceLightCone ---------------------------
(* Light cones the code built, one by one: ev[l] = [g |-> the order, lc |-> the result] *)
EXTENDS LightCone, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, bad
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ bad = {}
TraceNext == /\ bad = {} /\ l <= Len(Traces[tid].ev)
             /\ bad' = LET e == Traces[tid].ev[l] IN Failing(e.what, e.g, e.lc)
             /\ l' = l + 1 /\ UNCHANGED tid
TraceView == <<tid, l>>
Report == bad = {} \/ PrintT("BAD|" \o ToString(tid) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
==============================================================================
