----------------------------- MODULE TraceDistrib -----------------------------
EXTENDS Distrib, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
c(name, holds) == IF holds THEN {} ELSE {name}
VARIABLES tid, l, s, bad
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ s = [n \in {} |-> 0]
(* o = [k, v]: k = "zero", "pos" (v its logarithm) or something else *)
Pos(o, v, t) == o.k = "pos" /\ Abs(o.v - v) <= t
Fits(d, norm, e, x, o) ==
    CASE e.fn = "lum" -> IF x < d.min THEN o.k = "zero"
                         ELSE Pos(o, Lum(d, x), 60 + Abs(Lum(d, x) - Lum(d, d.x0)) \div 4000)
      [] e.fn = "pdf" -> IF x < d.min THEN o.k = "zero"
                         ELSE Pos(o, PdfN(d, norm, x), TolV(d) + Abs(Lum(d, x) - Lum(d, d.x0)) \div 4000)
      [] e.fn = "int" -> Pos(o, Above(d, x), TolV(d))
      [] e.fn \in {"cdf", "sf"} -> IF x <= d.min THEN (IF e.fn = "cdf" THEN o.k = "zero" ELSE Pos(o, 0, 2))
                         ELSE LET f == CdfN(d, norm, x) IN
                              /\ o.k \in {"pos", "zero"}
                              /\ Abs(o.p - (IF e.fn = "cdf" THEN f ELSE 1000000 - f)) <= TolP(d)
                              /\ f >= 980000 => LET t == TailN(d, norm, x) IN
                                     t >= -8 * U => Abs((IF e.fn = "cdf" THEN o.t ELSE o.v) - t) <= TolT(d)
      (* x < 0: the logarithm of the fraction above the value *)
      [] e.fn \in {"ppf", "rvs", "isf"} ->
            IF x = 0 THEN Pos(o, d.min, 2)
            ELSE /\ o.k = "pos" /\ o.v >= d.min - 2
                 /\ IF x > 0 THEN Abs(CdfN(d, norm, o.v) - x) <= TolP(d) + 1000
                    ELSE Abs(TailN(d, norm, o.v) - x) <= TolT(d)
Clauses(e, o) ==
    IF e.op = "freeze" THEN c("distributions can be made", ~o.err)
    ELSE LET d == s[e.name]
             norm == Above(d, d.min) IN
        c("asking succeeds", ~o.err) \cup (IF o.err THEN {} ELSE
        c("one value per object", Len(o.out) = Len(e.x)) \cup (IF Len(o.out) # Len(e.x) THEN {} ELSE
        c("values of " \o e.fn, LET nn == TLCEval(norm) IN \A i \in 1..Len(e.x) : Fits(d, nn, e, e.x[i], o.out[i]))
        \cup c("arguments left as they were", o.same)))
TraceNext ==
    /\ bad = {} /\ l <= Len(Traces[tid].ev)
    /\ LET e == Traces[tid].ev[l] IN
       /\ s' = IF e.op = "freeze" THEN Freeze(s, e.name, e.d) ELSE s
       /\ bad' = Clauses(e, e.obs)
    /\ l' = l + 1 /\ UNCHANGED tid
TraceView == <<tid, l>>
Report == bad = {} \/ PrintT("BAD|" \o ToString(tid) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
==============================================================================
