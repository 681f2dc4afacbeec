-------------------------- MODULE TraceInstrument ---------------------------
EXTENDS Instrument, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
c(name, holds) == IF holds THEN {} ELSE {name}
(* a sample, in 1/(4 VS), against what it must be *)
Is(x, r) == IF r.den = 0 THEN x = NAN
            ELSE /\ x # NAN
                 /\ LET y == x - r.noise IN Abs(y * r.den - 4 * r.num) <= 2 * Abs(r.den)
Rows(o, rows, nd) == /\ Len(o) = Len(rows)
                     /\ \A i \in 1..Len(rows) : Len(o[i]) = nd /\ \A j \in 1..nd : Is(o[i][j], rows[i][j])
RespOK(o, r) == o.f = r.f /\ o.k = r.k
(* reference frequencies: as given, or near the peak of the spectral response *)
RefOK(o, d) == IF d.nom # 0 THEN o.ref = d.nom
               ELSE CASE d.se.f = "box" -> (o.ref = NAN /\ 2 * Kw(d.se.k, "freq0", 100 * XS) <= Kw(d.se.k, "width", XS)) \/ 2 * Abs(o.ref - Kw(d.se.k, "freq0", 100 * XS)) <= Kw(d.se.k, "width", XS) + 2
                      [] d.se.f = "gauss" -> Abs(o.ref - Kw(d.se.k, "freq0", 100 * XS)) <= 2
                      [] OTHER -> TRUE
DetOK(o, d) == c("names of the detectors", o.name = d.name) \cup c("responses of the detectors", RespOK(o.sp, d.sp) /\ RespOK(o.se, d.se) /\ RespOK(o.no, d.no))
               \cup c("pointing offsets", o.off = d.off)
State(z, o) ==
    IF ~z.on THEN {} ELSE
    (IF Len(o.det) # Len(z.det) THEN {"names of the detectors"} ELSE UNION {DetOK(o.det[i], z.det[i]) : i \in 1..Len(z.det)})
    \cup c("default responses", RespOK(o.df.sp, z.df.sp) /\ RespOK(o.df.se, z.df.se) /\ RespOK(o.df.no, z.df.no))
    \cup c("names of the fields", o.fl = FNames(z))
    \cup c("fields by name", {o.fd[i] : i \in 1..Len(o.fd)} = SetOf(FNames(z)) /\ {o.dd[i] : i \in 1..Len(o.dd)} = SetOf(Names(z)))
    \cup c("no trace of deleted fields", o.stray = <<>>)
    \cup UNION {LET q == o.look[i] IN
                c("which maps can be sampled", q.stale = (q.name \notin z.ok))
                \cup (IF q.stale \/ q.name \notin z.ok THEN {}
                      ELSE c("the maps", Rows(q.rows, Draw(z, q.name, [pos |-> q.pos, signal |-> TRUE, noise |-> FALSE]), Len(z.det))))
                : i \in 1..Len(o.look)}
(* a line of a picture, at points <<frequency, value in 1/16>> (those where the *)
(* specification says what it is); ends in 1/640                               *)
Tells(r, fr) == CASE r.f = "gauss" -> LET d == 2 * (fr - Kw(r.k, "freq0", 100 * XS))  w == Kw(r.k, "fwhm", XS) IN d % w = 0 /\ Abs(d) <= 2 * w
                  [] r.f = "box"   -> 2 * Abs(fr - Kw(r.k, "freq0", 100 * XS)) # Kw(r.k, "width", XS)
                  [] r.f = "lin"   -> (16 * Kw(r.k, "b", 0) * fr) % XS = 0
LineOK(o, r, span) == /\ Abs(o.ends[1] - span[1]) <= 6 /\ Abs(o.ends[2] - span[2]) <= 6 /\ o.n >= 20
                      /\ \A k \in 1..Len(o.pts) : Tells(r, o.pts[k][1]) => o.pts[k][2] = Weight(r, o.pts[k][1])
PanelOK(o, p, ref) ==
    c("which detectors are shown", o.name = p.name)
    \cup c("the line shown", LineOK(o.line, p.se, p.span))
    \cup c("the frequency marked", Abs(o.at - (IF p.at = NAN THEN 10 * ref ELSE p.at)) <= 6)
    \cup c("the region shown", o.win = p.win /\ o.nx >= 20 /\ o.ny >= 20)
    \cup c("the beam shown", \A k \in 1..Len(o.cells) : LET q == o.cells[k] IN q[4] = Beam(p.sp, q[1], q[2], q[3]))
(* one line for every detector *)
LinesOK(z, e, o) == LET refs == [i \in 1..Len(z.det) |-> o.ref[i]]  n == Len(z.det) IN
    /\ Len(o.lines) = n
    /\ \A i \in 1..n : \E j \in 1..n : LineOK(o.lines[j], z.det[i].se, Span(e, refs))
    /\ \A j \in 1..n : \E i \in 1..n : LineOK(o.lines[j], z.det[i].se, Span(e, refs))
MapGeo(m, o) == o.n = m.n /\ o.lo = m.lo /\ o.px = m.px /\ o.gu = m.gu /\ o.au = m.au
Result(z, r, e) ==
    LET o == e.obs IN
    IF r.err \/ o.err THEN {}
    ELSE CASE e.op = "isample" -> c("the samples", /\ Len(o.out) = Len(r.out)
                                       /\ \A k \in 1..Len(r.out) : o.out[k].name = r.out[k].name /\ Rows(o.out[k].rows, r.out[k].rows, Len(z.det)))
                              \cup c("an array for one field, a dictionary for more", o.dict = (Len(r.out) # 1))
           [] e.op = "field"  -> c("warnings about coarse pixels", o.warn = r.out)
           [] e.op \in {"det", "detector"} -> c("reference frequency", Len(o.det) = Len(r.z.det) => RefOK(o.det[Len(o.det)], r.z.det[Len(r.z.det)]))
           [] e.op = "map"    -> c("geometry and units of the maps", \A i \in 1..Len(o.geo) : o.geo[i].name \in DOMAIN r.z.map => MapGeo(r.z.map[o.geo[i].name], o.geo[i]))
           [] e.op = "plotdet" -> LET ps == Panels(z, e, o.ref) IN
                                 IF Len(o.panels) # Len(ps) THEN {"which detectors are shown"}
                                 ELSE UNION {PanelOK(o.panels[i], ps[i], o.ref[Pos(Names(z), ps[i].name)]) : i \in 1..Len(ps)} \cup c("labels", o.lab)
           [] e.op = "plotspec" -> c("the lines shown", LinesOK(z, e, o)) \cup c("labels", o.lab)
           [] OTHER           -> {}
World(z, o) ==
    {o.g[i].name : i \in 1..Len(o.g)} = DOMAIN z.w.g
    /\ \A i \in 1..Len(o.g) : LET q == o.g[i] IN
          q.same \/ (LET g == z.w.g[q.name] IN q.n = g.n /\ q.gu = g.gu /\ q.four = g.four /\ q.act = g.act /\ (g.act => q.v = g.v))
Clauses(z, r, e) ==
    LET o == e.obs IN
    c("the call fails exactly when it must", o.err = r.err)
    \cup (IF o.err # r.err THEN {}
          ELSE Result(z, r, e) \cup State(r.z, o)
               \cup c("the grids observed are left alone", World(r.z, o) /\ \A i \in 1..Len(o.g) : o.g[i].same => o.g[i].name \in DOMAIN z.w.g /\ z.w.g[o.g[i].name] = r.z.w.g[o.g[i].name]))
    \cup c("arguments left as they were", o.argsame)
VARIABLES tid, l, z, bad
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ z = Fresh
TraceNext ==
    /\ bad = {} /\ l <= Len(Traces[tid].ev)
    /\ LET e == Traces[tid].ev[l]
           r == IApply(z, e)
       IN  z' = r.z /\ bad' = Clauses(z, r, e) \cup c("registers", InstInv(r.z))
    /\ l' = l + 1 /\ UNCHANGED tid
TraceView == <<tid, l>>
Report == bad = {} \/ PrintT("BAD|" \o ToString(tid) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
==============================================================================
