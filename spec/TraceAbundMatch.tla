---------------------------- MODULE TraceAbundMatch ---------------------------
(* Matches made and asked on the real code, decided against AbundMatch.        *)
EXTENDS AbundMatch, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
c(name, holds) == IF holds THEN {} ELSE {name}
(* r in units of 1/4096 *)
Tick(r) == (r.n \div r.d) * 4096 + (((r.n % r.d) * 4096) \div r.d)
Is(o, v) == o.k = v.k /\ (v.k = "num" => Abs(o.v - Tick(v.r)) <= 2)
(* of equal values any of their places may be taken *)
Between(m, side, x, o) ==
    LET p == Other(m, side)
        u == Value(p, CumEnd(m, side, x, IF m.rev THEN 2 ELSE 1))
        v == Value(p, CumEnd(m, side, x, IF m.rev THEN 1 ELSE 2))
    IN  \/ Is(o, u) \/ Is(o, v)
        \/ /\ o.k = "num" /\ (u.k = "num" \/ v.k = "num")
           /\ (o.v >= (IF u = FillLo(p) \/ u.k # "num" THEN -2000000000 ELSE Tick(u.r) - 2))
           /\ (o.v <= (IF v = FillHi(p) \/ v.k # "num" THEN 2000000000 ELSE Tick(v.r) + 2))
Fits(m, side, x, o) ==
    IF Tied(Own(m, side), x) THEN Between(m, side, x, o)
    ELSE \E v \in Answers(m, side, x) : Is(o, v)
Zero(o) == o.k = "num" /\ o.v = 0
VARIABLES tid, l, s, bad
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ s = [n \in {} |-> 0]
Clauses(e, o) ==
    IF e.op = "make" THEN c("the call fails exactly when it must", o.err = ~Good(e.m))
    ELSE IF e.op = "ask" THEN
        LET m == s[e.name]
            shape == ~o.err /\ Len(o.out) = Len(e.x)
        IN  c("matching succeeds", ~o.err) \cup (IF o.err THEN {} ELSE
            c("one value per object", shape) \cup (IF ~shape THEN {} ELSE
            c("matched values", \A i \in 1..Len(e.x) : Fits(m, e.side, e.x[i], o.out[i])
                                   \/ (~e.scalar /\ ZeroedEdge(m, e.side, e.x[i]) /\ Zero(o.out[i])))
            \cup c("matched values at the edge, in arrays", \A i \in 1..Len(e.x) : Fits(m, e.side, e.x[i], o.out[i])
                                   \/ ~(~e.scalar /\ ZeroedEdge(m, e.side, e.x[i]) /\ Zero(o.out[i])))
            \cup c("arguments left as they were", o.same)))
    ELSE {}
TraceNext ==
    /\ bad = {} /\ l <= Len(Traces[tid].ev)
    /\ LET e == Traces[tid].ev[l] IN
       /\ s' = IF e.op = "make" THEN Make(s, e.name, e.m) ELSE s
       /\ bad' = Clauses(e, e.obs) \ {Traces[tid].excused[i] : i \in 1..Len(Traces[tid].excused)}
    /\ l' = l + 1 /\ UNCHANGED tid
TraceView == <<tid, l>>
Report == bad = {} \/ PrintT("BAD|" \o ToString(tid) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
==============================================================================
