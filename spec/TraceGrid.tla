----------------------------- MODULE TraceGrid ------------------------------
EXTENDS Grid, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
c(name, holds) == IF holds THEN {} ELSE {name}
CONSTANT RES        \* averages are compared to 1 part in RES of a quarter

(* the grid g (as specified) against what was seen of it *)
FUnit(u) == IF u = "" THEN "" ELSE u \o "^-1"
AxisOK(g, o, k) ==
    LET n == g.n[k] IN
    /\ o.edges[k] = [j \in 1..(n + 1) |-> g.lo[k] + (j - 1) * g.px[k]]
    /\ o.mids[k] = [j \in 1..n |-> Mid(g, k, j - 1)]
    /\ o.c[k] = Center(g, k) /\ o.side[k] = n * g.px[k] /\ o.px[k] = g.px[k]
FAxisOK(g, o, k) ==     \* wave numbers, and edges half way between them
    LET n == g.n[k] IN
    /\ o.fc[k] = [j \in 1..n |-> (j - 1) - (n \div 2)]
    /\ o.fe[k] = [j \in 1..(n + 1) |-> 2 * ((j - 1) - (n \div 2)) - 1]
GridClauses(g, o) ==
    IF o.n # g.n \/ o.d # D(g) \/ Len(o.edges) # D(g) \/ Len(o.fc) # D(g) \/ Len(o.c) # D(g) \/ Len(o.side) # D(g) \/ Len(o.px) # D(g)
    THEN {"cells along each axis"}
    ELSE c("axes", \A k \in 1..D(g) : AxisOK(g, o, k))
    \cup c("Fourier axes", \A k \in 1..D(g) : FAxisOK(g, o, k))
    \cup c("units of the axes", o.au = g.au /\ o.fau = [k \in 1..D(g) |-> FUnit(g.au[k])])
    \cup c("units and number of properties", o.gu = g.gu /\ o.np = NP(g))
    \cup c("space of each axis", o.four = g.four /\ o.ps = g.ps)
    \cup c("number of objects", o.nobj = g.nobj)
    \cup c("data present", o.act = g.act)
    \cup c("values", o.act => o.shape = Shape(g) /\ o.v = g.v /\ (IF o.w = <<>> THEN RealOnly(g) ELSE o.w = g.w))
Near(x, y, tol) == Abs(x - y) <= tol
AvgOK(g, r, e, o) ==
    /\ o.n = r.n
    /\ LET ax == IF e.all THEN AllAxes(g) ELSE e.ax
           keep == SelectSeq(AllAxes(g), LAMBDA x : x \notin SetOf(ax))
           fs == g.four[ax[1] + 1]
       IN o.kept = [i \in 1..Len(keep) |-> LET k == keep[i] + 1 IN
                      [j \in 1..g.n[k] |-> IF fs THEN (j - 1) - (g.n[k] \div 2) ELSE Mid(g, k, j - 1)]]
    /\ Len(o.avg) = Len(r.n) /\ Len(o.avi) = Len(r.n) /\ (o.var = <<>> \/ Len(o.var) = Len(r.n))
    /\ \A i \in 1..Len(r.n) :
         IF r.w[i] = 0 THEN o.avg[i] = NAN
         ELSE /\ o.avg[i] # NAN /\ o.avi[i] # NAN
              /\ Near(o.avg[i] * r.w[i], RES * r.s[i], r.w[i])
              /\ Near(o.avi[i] * r.w[i], RES * r.t[i], r.w[i])
              /\ o.var # <<>> =>
                   LET num == r.w[i] * r.q[i] - r.s[i] * r.s[i] - r.t[i] * r.t[i]
                       den == IF e.biased THEN r.w[i] * r.w[i] ELSE r.w[i] * r.w[i] - r.w2[i]
                   IN IF den = 0 THEN o.var[i] = NAN ELSE o.var[i] # NAN /\ Near(o.var[i] * den, 4 * num, den)
(* shells made by the code: from the nearest cell to the farthest, all cells in *)
ShellsOK(g, e, o) ==
    LET ax == IF e.all THEN AllAxes(g) ELSE e.ax
        fs == g.four[ax[1] + 1]
        off(k, j) == IF fs THEN 2 * (j - (g.n[k] \div 2)) * e.fu[k] ELSE 2 * (Mid(g, k, j) - (IF e.c = <<>> THEN Center(g, k) ELSE e.c[k]))
        N == [i \in 1..Len(ax) |-> g.n[ax[i] + 1]]
        st == Strides(N)
        r2 == {SumTo([i \in 1..Len(ax) |-> LET x == off(ax[i] + 1, Digits(q - 1, N, st)[i]) IN x * x], 1, Len(ax)) : q \in 1..Prod(N)}
        from == IF e.log THEN r2 \ {0} ELSE r2
        a == CHOOSE x \in from : \A y \in from : x <= y
        b == CHOOSE x \in from : \A y \in from : x >= y
        m == Len(o.edges)
        near(x, sq) == Abs(x * x - sq) <= 2 * x + 2
        out == Cardinality({q \in 1..Prod(N) : e.log /\ SumTo([i \in 1..Len(ax) |-> LET x == off(ax[i] + 1, Digits(q - 1, N, st)[i]) IN x * x], 1, Len(ax)) = 0})
    IN  /\ m = e.k + 1 /\ near(o.edges[1], a) /\ near(o.edges[m], b)
        /\ \A i \in 2..m : o.edges[i - 1] <= o.edges[i]
        /\ ~e.log => \A i \in 2..m : Near(o.edges[i] - o.edges[i - 1], o.edges[2] - o.edges[1], 2)
        /\ o.total * Prod(N) = (Prod(N) - out) * Cells(g)
        /\ o.intsame
BellOK(g, o) ==     \* normalised: values in 1/10000
    LET chans == o.chans
        tot(k) == SumTo([i \in 1..Len(g.v) |-> IF (i - 1) % chans = k THEN g.v[i] ELSE 0], 1, Len(g.v))
    IN /\ Len(o.pv) = Len(g.v)
       /\ \A i \in 1..Len(g.v) : Near(o.pv[i] * tot((i - 1) % chans), 10000 * g.v[i], tot((i - 1) % chans))
Result(z, r, e) ==
    LET o == e.obs IN
    IF r.err \/ o.err THEN {}
    ELSE IF e.op = "sample" THEN c("values sampled", o.out = r.out)
    ELSE IF e.op \in {"view", "film"} THEN c("the picture", o.out = r.out) \cup c("labels and colours", o.lab)
    ELSE IF e.op = "dc" THEN c("zero-frequency coefficient", o.out = r.out)
    ELSE IF e.op = "avg" THEN
         (IF e.shells THEN c("shells made for the average", ShellsOK(z.g[e.g], e, o)) ELSE c("averages in shells", AvgOK(z.g[e.g], r.out[1], e, o)))
    ELSE IF e.op = "psf" /\ e.area THEN c("normalised PSF", BellOK(r.out[1], o)) \cup GridClauses([r.out[1] EXCEPT !.act = FALSE], o.grid)
    ELSE {}
Slot(k, g, o) == IF o.name = k THEN GridClauses(g, o) ELSE {}
Clauses(z, r, e) ==
    LET o == e.obs
        seen == {o.g[i].name : i \in 1..Len(o.g)}
    IN
    c("the call fails exactly when it must", o.err = r.err)
    \cup Result(z, r, e)
    \cup c("arguments left as they were", o.argsame)
    \cup c("the grid returned", o.retok)
    \cup c("files", {o.files[i] : i \in 1..Len(o.files)} = DOMAIN r.z.f)
    \cup (IF o.err # r.err THEN {} ELSE
          c("grids there are", seen = DOMAIN r.z.g)
          \cup UNION {LET q == o.g[i] IN
                      IF q.name \notin DOMAIN r.z.g THEN {}
                      ELSE IF q.same THEN c("unchanged grid " \o q.name, q.name \in DOMAIN z.g /\ r.z.g[q.name] = z.g[q.name])
                      ELSE GridClauses(r.z.g[q.name], q) : i \in 1..Len(o.g)})
VARIABLES tid, l, z, bad
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ z = [g |-> <<>>, f |-> <<>>]
TraceNext ==
    /\ bad = {} /\ l <= Len(Traces[tid].ev)
    /\ LET e == Traces[tid].ev[l]
           r == WApply(z, e)
       IN  z' = r.z /\ bad' = Clauses(z, r, e) \cup c("a grid keeps its shape", r.err \/ \A k \in DOMAIN r.z.g : GridOK(r.z.g[k]))
    /\ l' = l + 1 /\ UNCHANGED tid
TraceView == <<tid, l>>
Report == bad = {} \/ PrintT("BAD|" \o ToString(tid) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
==============================================================================
