------------------------------ MODULE TraceBins ------------------------------
EXTENDS Bins, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, bad
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ bad = {}
TraceNext == /\ bad = {} /\ l <= Len(Traces[tid].ev)
             /\ bad' = Failing(Traces[tid].ev[l])
             /\ l' = l + 1 /\ UNCHANGED tid
TraceView == <<tid, l>>
Report == bad = {} \/ PrintT("BAD|" \o ToString(tid) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
==============================================================================
