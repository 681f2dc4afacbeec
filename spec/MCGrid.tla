------------------------------- MODULE MCGrid -------------------------------
(* Every sequence of Depth calls of the menu, and the laws that hold in every  *)
(* state they lead to.                                                         *)
EXTENDS Grid, TLCExt, Json, IOUtils
CONSTANT Depth
Menu == JsonDeserialize(IOEnv.MENU).ops
VARIABLES z, last
vars == <<z, last>>
Init == z = [g |-> <<>>, f |-> <<>>] /\ last = 0 /\ PrintT(<<"I", TLCFP(z)>>)
Slots(e) == (IF "g" \in DOMAIN e THEN {e.g} ELSE {}) \cup (IF "h" \in DOMAIN e THEN {e.h} ELSE {})
Has(e) == Slots(e) \subseteq DOMAIN z.g
Small(y) == \A k \in DOMAIN y.g : LET g == y.g[k] IN Len(g.v) <= 16 /\ \A i \in 1..Len(g.v) : Abs(g.v[i]) < 65536 /\ Abs(g.w[i]) < 65536
(* exactly representable: the divisions of the call have no remainder *)
Even(g, k) == \A i \in 1..Len(g.v) : g.v[i] % k = 0 /\ g.w[i] % k = 0
Exact(e) == CASE e.op \in {"down", "collapse", "ft"} -> Even(z.g[e.g], 16)
              [] e.op \in {"power", "conv"} -> Even(z.g[e.g], 64) /\ Even(z.g[e.h], 64)
              [] e.op = "poke" -> z.g[e.g].act
              [] OTHER -> TRUE
Do(i) == LET e == Menu[i] IN
         /\ Has(e) /\ Exact(e)
         /\ LET r == WApply(z, e) IN z' = r.z /\ Small(r.z)
         /\ last' = i
MakeA    == \E i \in 1..Len(Menu) : Menu[i].op \in {"new", "axes", "func", "gridder", "psf"} /\ Do(i)
FillA    == \E i \in 1..Len(Menu) : Menu[i].op \in {"init", "poke", "cat", "arr", "spec", "newprop", "sum"} /\ Do(i)
ReshapeA == \E i \in 1..Len(Menu) : Menu[i].op \in {"pad", "crop", "scale", "down", "collapse"} /\ Do(i)
CopyA    == \E i \in 1..Len(Menu) : Menu[i].op \in {"copy", "copyaxes", "save", "load"} /\ Do(i)
FourierA == \E i \in 1..Len(Menu) : Menu[i].op \in {"ft", "power", "conv"} /\ Do(i)
PictureA == \E i \in 1..Len(Menu) : Menu[i].op \in {"view", "film"} /\ Do(i)
Next == TLCGet("level") <= Depth /\ (MakeA \/ FillA \/ ReshapeA \/ CopyA \/ FourierA \/ PictureA)
VView == z
Emit == PrintT(<<"E", TLCFP(z), last', TLCFP(z')>>)

(* ---------------------------------------------------------------- laws *)
FT124(g) == \A k \in 1..D(g) : g.n[k] \in {1, 2, 4}
Real(g) == g.act /\ ~(\E k \in 1..D(g) : g.four[k])
SumAbs2(g) == SumTo([i \in 1..Len(g.v) |-> (g.v[i] \div 16) * (g.v[i] \div 16) + (g.w[i] \div 16) * (g.w[i] \div 16)], 1, Len(g.v))
ctr(g) == [i \in 1..D(g) |-> Center(g, i)]
Delta(g) == LET h == Init0([g EXCEPT !.gu = <<"">>, !.n = [k \in 1..D(g) |-> 3], !.px = g.px])
                st == Strides(Shape(h))
            IN [h EXCEPT !.v[IndexOf([k \in 1..(D(g) + 1) |-> IF k > D(g) THEN 0 ELSE 1], st)] = VS]
Law(g) ==
    /\ GridOK(g)
    \* padding is undone by unpadding
    /\ Real(g) => LET e == [ax |-> AllAxes(g), pad |-> <<1>>, val |-> 64] IN
                  D(g) > 0 => Pad(Pad(g, e).g, [e EXCEPT !.pad = <<-1>>]).g = g
    \* cropping to the whole extent changes nothing
    /\ Real(g) => \A k \in 1..D(g) : Crop(g, [ax |-> k - 1, min |-> g.lo[k], max |-> g.lo[k] + g.n[k] * g.px[k]]).g = g
    \* adding an object puts its value in one cell of each property, which is what is sampled there
    /\ Real(g) /\ RealOnly(g) => LET p == [k \in 1..D(g) |-> Mid(g, k, g.n[k] - 1)]
                      e == [pos |-> <<p>>, vals |-> <<<<VS>>>>, cols |-> 1, count |-> FALSE, new |-> FALSE, all |-> TRUE, props |-> <<>>]
                      h == AddCat(g, e).g
                      s == [pos |-> <<p>>, all |-> TRUE, props |-> <<>>]
                  IN /\ Total(h) = Total(g) + NP(g) * VS
                     /\ \A q \in 1..NP(g) : Sample(h, s).out[1][q] = Sample(g, s).out[1][q] + VS
                     /\ \A i \in 1..Len(g.v) : h.v[i] - g.v[i] \in {0, VS}
    \* sums over axes, and over blocks of cells, keep the total
    /\ Real(g) /\ D(g) > 1 => Total(Collapse(g, [ax |-> <<0>>, wt |-> <<>>, mode |-> "sum"]).g) = Total(g)
    /\ Real(g) => \A k \in 1..D(g) : g.n[k] % 2 = 0 =>
                  Total(Down(g, [ax |-> <<k - 1>>, f |-> <<2>>, mode |-> "sum"]).g) = Total(g)
    \* transforming twice is the identity, and power adds up to the squares
    /\ (g.act /\ ~g.ps /\ FT124(g) /\ Even(g, 64)) =>
         FTAll(FTAll(g, AllAxes(g), FALSE), AllAxes(g), FALSE) = g
    /\ (Real(g) /\ ~g.ps /\ FT124(g) /\ Even(g, 64)) =>
         SumAbs2(FTAll(g, AllAxes(g), FALSE)) = Prod(g.n) * SumAbs2(g)
    \* convolution with a unit impulse, and with itself the other way round
    /\ (Real(g) /\ ~g.ps /\ Even(g, 64)) => Convolve(g, Delta(g), [all |-> TRUE, ax |-> <<>>, pad |-> <<>>]).g = g
    \* copies are equal; so is a grid with its properties picked in order
    /\ g.act => Pick(g, AllProps(g)) = g
    \* a picture with everything summed shows all there is, and so do all the frames together; the
    \* picture of the axes the other way round is the same picture, turned over
    /\ g.act /\ D(g) > 1 => LET m == Image(g, 0, 0, D(g) - 1, NoFix(g))
                                q == Image(g, 0, D(g) - 1, 0, NoFix(g))
                                s == Pick(g, <<0>>)
                            IN /\ Sum([y \in 1..Len(m) |-> Sum(m[y])]) = Total(s)
                               /\ \A y \in 1..Len(m) : \A x \in 1..Len(m[1]) : m[y][x] = q[x][y]
                               /\ D(g) > 2 => Sum([i \in 1..g.n[2] |-> LET f == Image(g, 0, 0, D(g) - 1, [NoFix(g) EXCEPT ![2] = i - 1])
                                                                     IN Sum([y \in 1..Len(f) |-> Sum(f[y])])]) = Total(s)
    \* shells which take in everything count every cell
    /\ Real(g) /\ D(g) > 0 => LET e == [shells |-> FALSE, all |-> TRUE, ax |-> <<>>, c |-> <<>>, fu |-> <<>>, wt |-> [shape |-> <<1>>, x |-> <<>>], edges |-> <<0, 20000>>]
                  IN g.px[1] < 200 => Sum(Shells(g, e).n) = Cells(g)
Inv == \A k \in DOMAIN z.g : Law(z.g[k])
FilesInv == \A k \in DOMAIN z.f : GridOK(z.f[k])
(* a call changes what it is for and nothing else; a failed one changes nothing *)
Target(e) == CASE e.op \in {"new", "axes", "func", "gridder", "psf", "copy", "copyaxes", "load"} -> {e.to}
               [] e.op \in {"sum", "collapse", "power", "conv"} -> IF e.inplace THEN {e.g} ELSE {e.to}
               [] e.op \in {"save", "sample", "avg", "view", "film"} -> {}
               [] OTHER -> {e.g}
StepProp == [][LET e == Menu[last'] IN
               /\ \A k \in DOMAIN z.g \ Target(e) : z'.g[k] = z.g[k]
               /\ (e.op # "save") => z'.f = z.f]_vars
==============================================================================
