----------------------------- MODULE Instrument -----------------------------
(* Instruments (simim.instrument): detectors and their responses, fields (which *)
(* refer to grids of the workbench of Grid.tla, or are copies of them), the     *)
(* maps every detector makes of a field, and samples drawn from the maps.       *)
(*                                                                              *)
(* z.w      the workbench: grids by name                                        *)
(* z.on     is there an instrument yet?   z.cfg  its units and best resolutions *)
(* z.df     default responses: sp(atial), se (spectral), no(ise)                *)
(* z.det    the detectors, in order       z.nd   detectors added so far         *)
(* z.fl     the fields, in order          z.nf   fields added so far            *)
(* z.map    the last maps of each field   z.ok   fields whose maps are good     *)
(*                                                                              *)
(* A response is [f, k]: a function (by name, "" for none) and its keyword      *)
(* arguments, <<name, value>> in order of name; no default arguments is NOKW.   *)
(* Lengths and frequencies are in 1/64, values in 1/VS, weights in 1/16.        *)
EXTENDS Grid
NOKW == <<<<"-", 0>>>>
Kw(k, name, dflt) == IF \E i \in 1..Len(k) : k[i][1] = name THEN k[CHOOSE i \in 1..Len(k) : k[i][1] = name][2] ELSE dflt
NoKw == <<>>

RECURSIVE Quot(_, _)
Quot(a, b) == IF b < 0 THEN Quot(-a, -b) ELSE IF a % b = 0 THEN a \div b ELSE Assert(FALSE, <<"not exact", a, b>>)
(* ------------------------------------------------------ what responses are *)
(* minus the logarithm (to base 2) of a Gaussian, at 2x = r half widths w       *)
Bits(r, w) == Quot(4 * r * r, w * w)
Half(x, e) == IF e > 1100 THEN 0 ELSE Quot(x, Pow2(e))        \* beyond the smallest number there is
(* the beam towards (dx, dy) at frequency fr, in 1/VS *)
Beam(r, dx, dy, fr) ==
    LET k == r.k IN
    CASE r.f = "gauss"  -> Half(VS, Bits(dx - Kw(k, "cx", 0), Kw(k, "fwhmx", XS)) + Bits(dy - Kw(k, "cy", 0), Kw(k, "fwhmy", XS)))
      [] r.f = "sgauss" ->      \* width times (freq0/fr)^freq_exp
            LET p == Kw(k, "freq_exp", -1)
                num == IF p = -1 THEN Quot(Kw(k, "freq0", 0), XS) ELSE IF p = 1 THEN Quot(fr, XS) ELSE 1
                den == IF p = -1 THEN Quot(fr, XS) ELSE IF p = 1 THEN Quot(Kw(k, "freq0", 0), XS) ELSE 1
            IN Half(VS, Bits((dx - Kw(k, "cx", 0)) * num, Kw(k, "fwhmx", XS) * den) + Bits((dy - Kw(k, "cy", 0)) * num, Kw(k, "fwhmy", XS) * den))
      [] r.f = "poly"   -> VS * Kw(k, "a", 1) + (VS \div XS) * (Kw(k, "b", 0) * dx + Kw(k, "c", 0) * dy + Kw(k, "e", 0) * fr)
      [] r.f = "tab"    -> LET w == Kw(k, "px", XS)  i == Quot(2 * dx, w)  j == Quot(2 * dy, w) IN
                           IF i % 2 = 0 /\ j % 2 = 0 /\ i \in -2..2 /\ j \in -2..2
                           THEN VS * Kw(k, "ker", 0)[1 + 3 * ((i + 2) \div 2) + ((j + 2) \div 2)] ELSE 0
(* the weight of a channel at frequency fr, in 1/16 *)
Weight(r, fr) ==
    LET k == r.k IN
    CASE r.f = "box"    -> LET f0 == Kw(k, "freq0", 100 * XS)  w == Kw(k, "width", XS) IN
                           IF 2 * fr >= 2 * f0 - w /\ 2 * fr <= 2 * f0 + w THEN 16 * Kw(k, "A", 1) ELSE 0
      [] r.f = "gauss"  -> Half(16 * Kw(k, "A", 1), Bits(fr - Kw(k, "freq0", 100 * XS), Kw(k, "fwhm", XS)))
      [] r.f = "lin"    -> 16 * Kw(k, "a", 1) + Quot(16 * Kw(k, "b", 0) * fr, XS)
(* sample i (from 0) of the noise, in 1/(4 VS), at time steps of (h/2)^2; white *)
(* noise with a source of random numbers that counts upwards                    *)
Noise(r, i, h) ==
    LET k == r.k IN
    CASE r.f = "none"   -> 0
      [] r.f = "white"  -> 4 * VS * Kw(k, "bias", 0) + Quot(8 * VS * Kw(k, "rms", 1) * (IF Kw(k, "rng", 0) = 1 THEN i ELSE 0), h)
      [] r.f = "ramp"   -> 4 * VS * Kw(k, "b", 0) + VS * Kw(k, "s", 0) * i * h * h
Known(mode) == CASE mode = "sp" -> {"gauss", "sgauss", "poly", "tab", "bad"}
                 [] mode = "se" -> {"gauss", "box", "lin"}
                 [] mode = "no" -> {"none", "white", "ramp"}

(* --------------------------------------------------------------- registers *)
Names(z) == [i \in 1..Len(z.det) |-> z.det[i].name]
FNames(z) == [i \in 1..Len(z.fl) |-> z.fl[i].name]
Num(k) == ToString(k)
Fresh == [w |-> [g |-> <<>>, f |-> <<>>], on |-> FALSE, cfg |-> <<>>, df |-> <<>>, det |-> <<>>, nd |-> 0,
          fl |-> <<>>, nf |-> 0, map |-> <<>>, ok |-> {}]
(* given responses: e.sp = [f, k, nk (no arguments given), bk (not a dictionary)] *)
ArgOK(r, mode) == (r.f = "" \/ r.f \in Known(mode)) /\ (r.nk \/ ~r.bk)
Kwargs(r) == IF r.nk THEN NoKw ELSE r.k
Default(r) == [f |-> r.f, k |-> IF r.nk THEN NOKW ELSE r.k]
InstOK(e) == /\ ArgOK(e.sp, "sp") /\ ArgOK(e.se, "se") /\ ArgOK(e.no, "no")
             /\ e.su \in {"", "rad", "deg", "arcmin", "arcsec"} /\ e.pu \in {"", "GHz", "Hz", "m", "mm", "um"}
             /\ e.fu \in {"", "Jy", "mJy"} /\ e.frame \in {"", "radec", "none"}
MakeInst(z, e) ==
    [z EXCEPT !.on = TRUE, !.cfg = [su |-> e.su, pu |-> e.pu, fu |-> e.fu, bs |-> e.bs, bf |-> e.bf],
              !.df = [sp |-> Default(e.sp), se |-> Default(e.se), no |-> Default(e.no)],
              !.det = <<>>, !.nd = 0, !.fl = <<>>, !.nf = 0, !.map = <<>>, !.ok = {}]
(* the response of a new detector *)
Given(r, d) == IF r.f # "" THEN [f |-> r.f, k |-> Kwargs(r)] ELSE [f |-> d.f, k |-> IF r.nk THEN d.k ELSE r.k]
GivenOK(r, d, mode) == ArgOK(r, mode) /\ (r.f = "" => d.f # "" /\ ~(r.nk /\ d.k = NOKW))
DetName(z, e) == IF e.name = "" THEN Num(z.nd) ELSE e.name
AddDetOK(z, e) == /\ DetName(z, e) # "instrument" /\ DetName(z, e) \notin SetOf(Names(z))
                  /\ e.off = <<>> \/ Len(e.off) = 2
                  /\ GivenOK(e.sp, z.df.sp, "sp") /\ GivenOK(e.se, z.df.se, "se") /\ GivenOK(e.no, z.df.no, "no")
AddDet(z, e) ==
    [z EXCEPT !.det = Append(@, [name |-> DetName(z, e), off |-> IF e.off = <<>> THEN <<0, 0>> ELSE e.off, nom |-> e.nom,
                                 sp |-> Given(e.sp, z.df.sp), se |-> Given(e.se, z.df.se), no |-> Given(e.no, z.df.no)]),
              !.nd = @ + 1, !.ok = {}]
Chosen(names, all) == SelectSeq(names, LAMBDA x : x # "instrument")
DelDet(z, e) == IF e.names = <<>> THEN z ELSE [z EXCEPT !.det = SelectSeq(@, LAMBDA d : d.name \notin SetOf(e.names)), !.ok = {}]
DetsOK(z, names) == NoDup(names) /\ SetOf(names) \subseteq SetOf(Names(z))
FieldsOK(z, names) == NoDup(names) /\ SetOf(names) \subseteq SetOf(FNames(z))
(* a new response for some detectors (all if none is named) and/or the default *)
SetOK(z, e) == LET who == IF e.names = <<>> THEN Names(z) ELSE SelectSeq(e.names, LAMBDA x : x # "instrument") IN
               /\ DetsOK(z, who) /\ ArgOK(e.r, e.mode) /\ (e.r.f = "" => who = <<>>)
SetResp(z, e) ==
    LET who == IF e.names = <<>> THEN SetOf(Names(z)) ELSE SetOf(e.names) \ {"instrument"}
        r == [f |-> e.r.f, k |-> Kwargs(e.r)]
        upd(d) == IF d.name \notin who THEN d
                  ELSE CASE e.mode = "sp" -> [d EXCEPT !.sp = r] [] e.mode = "se" -> [d EXCEPT !.se = r] [] e.mode = "no" -> [d EXCEPT !.no = r]
        z1 == [z EXCEPT !.det = [i \in 1..Len(@) |-> upd(@[i])], !.ok = IF who = {} THEN @ ELSE {}]
    IN IF "instrument" \notin SetOf(e.names) THEN z1
       ELSE CASE e.mode = "sp" -> [z1 EXCEPT !.df.sp = Default(e.r)] [] e.mode = "se" -> [z1 EXCEPT !.df.se = Default(e.r)]
              [] e.mode = "no" -> [z1 EXCEPT !.df.no = Default(e.r)]

(* ------------------------------------------------------------------ fields *)
UnitOK(a, b) == a = "" \/ b = "" \/ a = b
FieldOK(z, e) ==
    LET g == z.w.g[e.g]  nm == IF e.name = "" THEN Num(z.nf) ELSE e.name IN
    /\ g.act /\ D(g) = 3 /\ (\A k \in 1..D(g) : ~g.four[k]) /\ e.prop \in 0..(NP(g) - 1)
    /\ UnitOK(g.au[1], z.cfg.su) /\ UnitOK(g.au[2], z.cfg.su) /\ UnitOK(g.au[3], z.cfg.pu) /\ UnitOK(g.gu[e.prop + 1], z.cfg.fu)
    /\ nm \notin SetOf(FNames(z))
    /\ z.cfg.bs # 0 => g.px[1] <= z.cfg.bs /\ g.px[2] <= z.cfg.bs
    /\ z.cfg.bf # 0 => g.px[3] <= z.cfg.bf
AddField(z, e) ==
    LET g == z.w.g[e.g]  nm == IF e.name = "" THEN Num(z.nf) ELSE e.name IN
    [z EXCEPT !.fl = Append(@, IF e.inplace THEN [name |-> nm, ref |-> e.g, own |-> <<>>, prop |-> e.prop]
                               ELSE [name |-> nm, ref |-> "", own |-> Pick(g, <<e.prop>>), prop |-> 0]),
              !.nf = @ + 1, !.ok = @ \ {nm}]
(* coarse pixels are warned about: [spatial, spectral] *)
Coarse(z, e) == LET g == z.w.g[e.g] IN
    <<z.cfg.bs # 0 /\ (5 * g.px[1] > z.cfg.bs \/ 5 * g.px[2] > z.cfg.bs), z.cfg.bf # 0 /\ 5 * g.px[3] > z.cfg.bf>>
DelField(z, e) ==
    [z EXCEPT !.fl = SelectSeq(@, LAMBDA x : x.name \notin SetOf(e.names)), !.ok = @ \ SetOf(e.names),
              !.map = [x \in DOMAIN @ \ SetOf(e.names) |-> @[x]]]
Field(z, nm) == z.fl[Pos(FNames(z), nm)]
Scene(z, nm) == LET f == Field(z, nm) IN IF f.ref = "" THEN f.own ELSE Pick(z.w.g[f.ref], <<f.prop>>)

(* -------------------------------------------------------------------- maps *)
MaxOf(q) == CHOOSE x \in SetOf(q) : \A y \in SetOf(q) : y <= x
(* the beam over a kernel of ks cells a side, in every channel of g *)
Kernel(g, r, ks, norm) ==
    LET n == <<ks[1], ks[2], g.n[3]>>
        lo == <<-((ks[1] * g.px[1]) \div 2), -((ks[2] * g.px[2]) \div 2), g.lo[3]>>
        s == Init0(Blank(lo, g.px, n, g.au, <<"">>))
        raw == Build(Shape(s), LAMBDA d : Beam(r, Mid(s, 1, d[1]), Mid(s, 2, d[2]), Mid(s, 3, d[3])))
        chan(c) == [i \in 1..(n[1] * n[2]) |-> raw[(i - 1) * n[3] + c]]
        by == [c \in 1..n[3] |-> IF norm = "peak" THEN MaxOf(chan(c)) ELSE IF norm = "area" THEN Sum(chan(c)) ELSE VS]
    IN [s EXCEPT !.v = [i \in 1..Len(raw) |-> Quot(raw[i] * VS, by[1 + ((i - 1) % n[3])])]]
RoundDiv(a, b) == (2 * a + b) \div (2 * b)
KSize(z, g, e) == IF e.ks # <<>> THEN Spread(e.ks, 2)
                  ELSE [k \in 1..2 |-> RoundDiv(z.cfg.bs, g.px[k]) * 10 + 1]
Seen(g, s, e) == Convolve(g, s, [all |-> FALSE, ax |-> <<0, 1>>, pad |-> e.pad])
(* what a detector makes of the scene g, blurred to c: numerators and denominator *)
Collapsed(c, r) ==
    LET m == c.n[3]  wt == [j \in 1..m |-> Weight(r, Mid(c, 3, j - 1))] IN
    [num |-> [i \in 1..(c.n[1] * c.n[2]) |-> SumTo([j \in 1..m |-> wt[j] * c.v[(i - 1) * m + j]], 1, m)], den |-> SumTo(wt, 1, m)]
MapOK(z, nm, e) ==
    LET g == Scene(z, nm) IN
    /\ g.act /\ D(g) = 3 /\ \A k \in 1..D(g) : ~g.four[k] /\ ~g.ps
    /\ Len(z.det) > 0
    /\ IF e.beam # "" THEN ~Seen(g, z.w.g[e.beam], e).err
       ELSE e.norm \in {"peak", "area", "none"} /\ (\A i \in 1..Len(z.det) : z.det[i].sp.f # "bad") /\ Len(e.pad) <= 2
MapOf(z, nm, e) ==
    LET g == Scene(z, nm)
        sps == [i \in 1..Len(z.det) |-> z.det[i].sp]
        conv == [r \in SetOf(sps) |-> Seen(g, IF e.beam # "" THEN z.w.g[e.beam] ELSE Kernel(g, r, KSize(z, g, e), e.norm), e).g]
        one(i) == Collapsed(conv[sps[i]], z.det[i].se)
    IN [lo |-> SubSeq(g.lo, 1, 2), px |-> SubSeq(g.px, 1, 2), n |-> SubSeq(g.n, 1, 2), au |-> SubSeq(g.au, 1, 2),
        gu |-> [i \in 1..Len(z.det) |-> g.gu[1]], d |-> [i \in 1..Len(z.det) |-> one(i)],
        of |-> [i \in 1..Len(z.det) |-> [name |-> z.det[i].name, sp |-> z.det[i].sp, se |-> z.det[i].se]]]
(* a call maps fields one after the other, up to the first that cannot be *)
RECURSIVE MapAll(_, _, _)
MapAll(z, names, e) ==
    IF names = <<>> THEN [z |-> z, err |-> FALSE]
    ELSE IF ~MapOK(z, names[1], e) THEN [z |-> z, err |-> TRUE]
    ELSE LET m == MapOf(z, names[1], e) IN
         MapAll([z EXCEPT !.map = [x \in DOMAIN z.map \cup {names[1]} |-> IF x = names[1] THEN m ELSE z.map[x]], !.ok = @ \cup {names[1]}], Tail(names), e)
MapFields(z, e) ==
    LET names == IF e.names = <<>> THEN FNames(z) ELSE e.names IN
    IF ~FieldsOK(z, names) \/ (e.beam = "" /\ e.ks = <<>> /\ z.cfg.bs = 0) \/ (e.beam # "" /\ e.ks # <<>>)
    THEN [z |-> z, err |-> TRUE] ELSE MapAll(z, names, e)

(* ----------------------------------------------------------------- samples *)
(* per position and detector: [num, den, noise]; den = 0 is not a number *)
Draw(z, nm, e) ==
    LET m == z.map[nm] IN
    [i \in 1..Len(e.pos) |-> [j \in 1..Len(z.det) |->
        LET p == [k \in 1..2 |-> e.pos[i][k] + z.det[j].off[k]]
            c == CellOf(m, p)
            noise == IF e.noise THEN Noise(z.det[j].no, i - 1, e.dt) ELSE 0
        IN IF ~e.signal THEN [num |-> 0, den |-> 1, noise |-> noise]
           ELSE IF ~InGrid(m, p) THEN [num |-> 0, den |-> 0, noise |-> 0]
           ELSE [num |-> m.d[j].num[1 + c[1] * m.n[2] + c[2]], den |-> m.d[j].den, noise |-> noise]]]
SampleOK(z, e) ==
    LET names == IF e.names = <<>> THEN FNames(z) ELSE e.names IN
    /\ FieldsOK(z, names) /\ SetOf(names) \subseteq z.ok
    /\ e.shape = 2 /\ (e.noise => e.dt # 0) /\ (e.noise \/ e.signal)
SampleFields(z, e) ==
    LET names == IF e.names = <<>> THEN FNames(z) ELSE e.names IN
    [k \in 1..Len(names) |-> [name |-> names[k], rows |-> Draw(z, names[k], e)]]

(* ----------------------------------------------------------------- pictures *)
(* what the picture of detector d shows. ref: reference frequencies, by name, in *)
(* 1/64; ends of the frequency axis in 1/640 (NAN in e.f: by default from 10%   *)
(* below the lowest to 10% above the highest reference frequency shown), ends   *)
(* of the spatial axes in 1/64 (by default 5 times the best resolution)         *)
Lowest(q) == CHOOSE x \in SetOf(q) : \A y \in SetOf(q) : x <= y
Shown(z, e) == IF e.names = <<>> THEN Names(z) ELSE e.names
RefsOf(z, names, ref) == [i \in 1..Len(names) |-> ref[Pos(Names(z), names[i])]]
Span(e, refs) == <<IF e.f[1] = NAN THEN 9 * Lowest(refs) ELSE 10 * e.f[1], IF e.f[2] = NAN THEN 11 * MaxOf(refs) ELSE 10 * e.f[2]>>
Region(z, e) == [k \in 1..4 |-> IF e.x[k] # NAN THEN e.x[k] ELSE IF k \in {1, 3} THEN -5 * z.cfg.bs ELSE 5 * z.cfg.bs]
PlotOK(z, e) == LET w == Shown(z, e) IN
                /\ DetsOK(z, w) /\ (NAN \in SetOf(e.f) => w # <<>>)
                /\ (NAN \in SetOf(e.x) => z.cfg.bs # 0)
                /\ \A i \in 1..Len(w) : z.det[Pos(Names(z), w[i])].sp.f # "bad"
SpecPlotOK(z, e) == NAN \in SetOf(e.f) => z.det # <<>>
(* one panel per detector: the line is the spectral response, the image the beam *)
Panel(z, e, nm, refs) == LET d == z.det[Pos(Names(z), nm)] IN
    [name |-> nm, span |-> Span(e, refs), win |-> Region(z, e), at |-> IF e.fs # 0 THEN 10 * e.fs ELSE NAN, sp |-> d.sp, se |-> d.se]
Panels(z, e, ref) == LET w == Shown(z, e) IN [i \in 1..Len(w) |-> Panel(z, e, w[i], RefsOf(z, w, ref))]

(* a name of the workbench now stands for another grid: a field goes on with the *)
(* one it was given, which nothing else can reach any more                      *)
Orphaned(z, nm) == [z EXCEPT !.fl = [i \in 1..Len(@) |-> IF @[i].ref # nm THEN @[i]
                                     ELSE [name |-> @[i].name, ref |-> "", own |-> Pick(z.w.g[nm], <<@[i].prop>>), prop |-> 0]]]
(* ----------------------------------------------------------------- a call *)
Keep(z) == [z |-> z, err |-> FALSE, out |-> <<>>]
Refuse(z) == [z |-> z, err |-> TRUE, out |-> <<>>]
If(z, ok, y) == IF ok THEN Keep(y) ELSE Refuse(z)
IApply(z, e) ==
    CASE e.op = "inst"     -> IF InstOK(e) THEN Keep(MakeInst(z, e)) ELSE Refuse(z)
      [] e.op = "detector" ->       \* an instrument with a single detector
            LET one == [e EXCEPT !.name = "detector"]
                blank == MakeInst(z, [e EXCEPT !.sp = [f |-> "", k |-> <<>>, nk |-> TRUE, bk |-> FALSE],
                                               !.se = [f |-> "", k |-> <<>>, nk |-> TRUE, bk |-> FALSE],
                                               !.no = [f |-> "", k |-> <<>>, nk |-> TRUE, bk |-> FALSE]])
            IN IF InstOK(e) /\ AddDetOK(blank, one) THEN Keep(AddDet(blank, one)) ELSE Refuse(z)
      [] e.op = "det"      -> IF AddDetOK(z, e) THEN Keep(AddDet(z, e)) ELSE Refuse(z)
      [] e.op = "deldet"   -> IF DetsOK(z, e.names) THEN Keep(DelDet(z, e)) ELSE Refuse(z)
      [] e.op = "set"      -> IF SetOK(z, e) THEN Keep(SetResp(z, e)) ELSE Refuse(z)
      [] e.op = "field"    -> IF FieldOK(z, e) THEN [Keep(AddField(z, e)) EXCEPT !.out = Coarse(z, e)] ELSE Refuse(z)
      [] e.op = "delfield" -> IF FieldsOK(z, e.names) THEN Keep(DelField(z, e)) ELSE Refuse(z)
      [] e.op = "map"      -> LET r == MapFields(z, e) IN [z |-> r.z, err |-> r.err, out |-> <<>>]
      [] e.op = "isample"  -> IF SampleOK(z, e) THEN [Keep(z) EXCEPT !.out = SampleFields(z, e)] ELSE Refuse(z)
      [] e.op = "plotdet"  -> If(z, PlotOK(z, e), z)
      [] e.op = "plotspec" -> If(z, SpecPlotOK(z, e), z)
      [] OTHER             -> LET r == WApply(z.w, e)
                                  y == IF ~r.err /\ e.op \in {"new", "copy"} /\ e.to \in DOMAIN z.w.g THEN Orphaned(z, e.to) ELSE z
                              IN [z |-> [y EXCEPT !.w = r.z], err |-> r.err, out |-> r.out]

(* ------------------------------------------------------- what always holds *)
InstInv(z) ==
    /\ NoDup(Names(z)) /\ NoDup(FNames(z)) /\ "instrument" \notin SetOf(Names(z))
    /\ Len(z.det) <= z.nd /\ Len(z.fl) <= z.nf
    /\ z.ok \subseteq SetOf(FNames(z)) /\ z.ok \subseteq DOMAIN z.map /\ DOMAIN z.map \subseteq SetOf(FNames(z))
    \* a map that can be sampled was made with the detectors there are now, as they are
    /\ \A f \in z.ok : z.map[f].of = [i \in 1..Len(z.det) |-> [name |-> z.det[i].name, sp |-> z.det[i].sp, se |-> z.det[i].se]]
    /\ \A i \in 1..Len(z.det) : z.det[i].sp.f # "" /\ z.det[i].se.f # "" /\ z.det[i].no.f # ""
                                /\ z.det[i].sp.k # NOKW /\ z.det[i].se.k # NOKW /\ z.det[i].no.k # NOKW
=============================================================================
