---------------------------- MODULE TraceAbundModel ---------------------------
EXTENDS AbundModel, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
c(name, holds) == IF holds THEN {} ELSE {name}
VARIABLES tid, l, s, bad
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ s = Init0(Traces[tid].cat)
NaNo(o) == o.k = "nan"
Near(o, v, t) == o.k = "pos" /\ Abs(o.v - v) <= t
(* one answer: x at redshift z; shift = 0 or the conversion to star formation *)
Fits(rel, x, z, shift, o) ==
    LET cat == rel.cat IN
    IF ~InGrid(rel, x) \/ ~InZ(cat, z) THEN NaNo(o)
    ELSE LET i == Side(cat, z)
             w == WeightZ(cat, i, z)
         IN  IF Plainly(rel, i, x) /\ Plainly(rel, i + 1, x)
             THEN Near(o, shift + LogMix(At(rel, i, x), At(rel, i + 1, x), w), 700)
             ELSE IF (w < 9990 /\ Never(rel, i, x)) \/ (w > 10 /\ Never(rel, i + 1, x))
             THEN NaNo(o)
             ELSE TRUE
Clauses(e, o) ==
    CASE e.op = "recat" -> {}
      [] e.op = "construct" -> c("the call fails exactly when it must", o.err = Refused(s, e))
      [] e.op = "query" ->
            LET ob == s.objs[e.name] IN
            IF ob.rel.none THEN c("refused before there is a relation", o.err)
            ELSE c("asking succeeds", ~o.err) \cup (IF o.err THEN {} ELSE
                 c("one value per halo", Len(o.out) = Len(e.x)) \cup (IF Len(o.out) # Len(e.x) THEN {} ELSE
                 c("as abundant as the halos", \A i \in 1..Len(e.x) :
                     Fits(ob.rel, e.x[i], e.z, IF e.what = "sfr" THEN (IF e.shift = NONE THEN ob.tosfr ELSE e.shift) ELSE 0, o.out[i]))))
      [] e.op = "function" ->
            LET d == IF e.model = "g13" THEN G13(e.par, e.z) ELSE B17(e.geo, e.z) IN
            c("parameters of the luminosity or mass function",
              /\ ~o.err /\ Near(o.x0, d.x0, 15)
              /\ IF e.model = "g13" THEN Near(o.p1, d.p1, 15) /\ o.a1 = 100 * d.a1 /\ o.a2 = 100 * d.a2
                 ELSE /\ (IF d.p1 = NONE THEN o.p1.k = "zero" ELSE Near(o.p1, d.p1, 40)) /\ Near(o.p2, d.p2, 15)
                      /\ Abs(o.a1 - d.a1) <= 3 /\ Abs(o.a2 - d.a2) <= 3)
TraceNext ==
    /\ bad = {} /\ l <= Len(Traces[tid].ev)
    /\ LET e == Traces[tid].ev[l] IN
       /\ s' = IF e.op = "construct" THEN Construct(s, e, IF Matches(s, e) /\ ~Refused(s, e) THEN Tables(s.cat, e.model, e.par) ELSE <<>>) ELSE IF e.op = "recat" THEN Recat(s, e.cat) ELSE s
       /\ bad' = Clauses(e, e.obs)
    /\ l' = l + 1 /\ UNCHANGED tid
TraceView == <<tid, l>>
Report == bad = {} \/ PrintT("BAD|" \o ToString(tid) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
==============================================================================
