---------------------------- MODULE MCInstrument ----------------------------
(* Every sequence of Depth calls of the menu, on a small sky, and what holds in *)
(* every state they lead to and at every step.                                  *)
EXTENDS Instrument, TLCExt, Json, IOUtils
CONSTANT Depth
File == JsonDeserialize(IOEnv.MENU)
Menu == File.ops
RECURSIVE Run(_, _)
Run(z, q) == IF q = <<>> THEN z ELSE Run(IApply(z, Head(q)).z, Tail(q))
VARIABLES z, last
vars == <<z, last>>
Init == z = Run(Fresh, File.prefix) /\ last = 0 /\ PrintT(<<"I", TLCFP(z)>>)
Has(e) == /\ e.op = "field" => e.g \in DOMAIN z.w.g
          /\ e.op = "map" /\ e.beam # "" => e.beam \in DOMAIN z.w.g
Do(i) == LET e == Menu[i] IN Has(e) /\ z' = IApply(z, e).z /\ last' = i
DetectorA == \E i \in 1..Len(Menu) : Menu[i].op \in {"det", "deldet", "set"} /\ Do(i)
FieldA    == \E i \in 1..Len(Menu) : Menu[i].op \in {"field", "delfield"} /\ Do(i)
MapA      == \E i \in 1..Len(Menu) : Menu[i].op = "map" /\ Do(i)
WorldA    == \E i \in 1..Len(Menu) : Menu[i].op \in {"poke", "crop", "pad"} /\ Do(i)
ShowA     == \E i \in 1..Len(Menu) : Menu[i].op \in {"plotdet", "plotspec"} /\ Do(i)
Next == TLCGet("level") <= Depth /\ (DetectorA \/ FieldA \/ MapA \/ WorldA \/ ShowA)
VView == z
Emit == PrintT(<<"E", TLCFP(z), last', TLCFP(z')>>)

(* ---------------------------------------------------------------- laws *)
Inv == InstInv(z)
(* the response of a detector to a sky does not depend on the other detectors,  *)
(* and detectors alike see alike *)
E0 == [names |-> <<>>, norm |-> "none", ks |-> <<3>>, beam |-> "", pad |-> <<>>]
Only(i) == [z EXCEPT !.det = <<@[i]>>]
Alone == \A k \in 1..Len(z.fl) : LET nm == z.fl[k].name IN
         Len(z.det) > 0 /\ MapOK(z, nm, E0) =>
         LET m == MapOf(z, nm, E0) IN
         /\ \A i \in 1..Len(z.det) : MapOf(Only(i), nm, E0).d[1] = m.d[i]
         /\ \A i, j \in 1..Len(z.det) : z.det[i].sp = z.det[j].sp /\ z.det[i].se = z.det[j].se => m.d[i] = m.d[j]
(* pictures: of the detectors named, each as it is, over a region that holds the *)
(* origin and a range that holds every reference frequency if none is given     *)
P0 == [names |-> <<>>, x |-> <<NAN, NAN, NAN, NAN>>, f |-> <<NAN, NAN>>, fs |-> 0]
Refs(y) == [i \in 1..Len(y.det) |-> 64 * i]
PanelLaw == Len(z.det) > 0 =>
    LET y == [z EXCEPT !.cfg.bs = 64]  ps == Panels(y, P0, Refs(y)) IN
    /\ PlotOK(y, P0) /\ ~PlotOK([y EXCEPT !.cfg.bs = 0], P0) /\ SpecPlotOK(y, P0)
    /\ Len(ps) = Len(z.det)
    /\ \A i \in 1..Len(ps) : /\ ps[i].name = z.det[i].name /\ ps[i].sp = z.det[i].sp /\ ps[i].se = z.det[i].se
                              /\ ps[i].win = <<-320, 320, -320, 320>>
                              /\ \A k \in 1..Len(z.det) : ps[i].span[1] < 10 * Refs(z)[k] /\ 10 * Refs(z)[k] < ps[i].span[2]
                              /\ LET one == Panels(y, [P0 EXCEPT !.names = <<z.det[i].name>>, !.x[1] = 5, !.f[2] = 7, !.fs = 3], Refs(y)) IN
                                 one = <<[ps[i] EXCEPT !.win[1] = 5, !.span = <<9 * Refs(z)[i], 70>>, !.at = 30]>>
(* seeing is linear in the sky *)
Twice(g) == [g EXCEPT !.v = [i \in 1..Len(g.v) |-> 2 * g.v[i]]]
Linear == \A k \in 1..Len(z.fl) : LET nm == z.fl[k].name IN
          Len(z.det) > 0 /\ MapOK(z, nm, E0) =>
          LET y == [z EXCEPT !.fl[k] = [name |-> nm, ref |-> "", own |-> Twice(Scene(z, nm)), prop |-> 0]]
              a == MapOf(z, nm, E0)  b == MapOf(y, nm, E0)
          IN \A i \in 1..Len(z.det) : b.d[i].den = a.d[i].den /\ b.d[i].num = [c \in 1..Len(a.d[i].num) |-> 2 * a.d[i].num[c]]
(* what each kind of call may change *)
StepProp == [][LET e == Menu[last']  r == IApply(z, e) IN
               /\ (e.op \notin {"poke", "crop", "pad"}) => z'.w = z.w
               /\ (e.op \in {"plotdet", "plotspec"}) => z' = z
               /\ (e.op # "map") => /\ \A f \in DOMAIN z'.map : z'.map[f] = z.map[f]
                                    /\ z'.ok \subseteq z.ok
               /\ (e.op = "map") => <<z'.det, z'.df, z'.fl>> = <<z.det, z.df, z.fl>> /\ z.ok \subseteq z'.ok
               /\ (r.err /\ e.op # "map") => z' = z
               /\ (e.op \in {"poke", "crop", "pad"}) => <<z'.det, z'.df, z'.map, z'.ok>> = <<z.det, z.df, z.map, z.ok>>
               /\ (e.op = "set" /\ e.mode # "sp") => \A i \in 1..Len(z.det) : z'.det[i].sp = z.det[i].sp
               /\ (e.op = "det" /\ ~r.err) => SubSeq(z'.det, 1, Len(z.det)) = z.det]_vars
=============================================================================
