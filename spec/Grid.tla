-------------------------------- MODULE Grid --------------------------------
(* Grids (simim.map): a workbench of named grids and of files they were saved  *)
(* to, and every operation on them.                                            *)
(*                                                                             *)
(* A grid                                                                      *)
(*   lo, px, n  per axis: lower edge, cell width (both in 1/64), cells         *)
(*   au         per axis: its unit ("" for none)                               *)
(*   gu         per property: its unit ("" for none)                           *)
(*   four       per axis: in Fourier space?      ps  is it a power spectrum?   *)
(*   act        does it hold data?               nobj  objects put in so far   *)
(*   v, w       real and imaginary parts of the cells, in 1/VS, in the order   *)
(*              of the axes, properties innermost                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT VS
XS == 64
NAN == 999999937

(* ------------------------------------------------------------ arithmetic *)
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN 1 ELSE Head(q) * Prod(Tail(q))
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
RECURSIVE SumTo(_, _, _)
SumTo(f, i, j) == IF i > j THEN 0 ELSE f[i] + SumTo(f, i + 1, j)
Abs(x) == IF x < 0 THEN -x ELSE x
SetOf(q) == {q[i] : i \in 1..Len(q)}
NoDup(q) == Cardinality(SetOf(q)) = Len(q)
Range0(k) == [i \in 1..k |-> i - 1]

(* --------------------------------------------------------------- indexing *)
Strides(N) == [k \in 1..Len(N) |-> Prod(SubSeq(N, k + 1, Len(N)))]
Digits(c, N, st) == [k \in 1..Len(N) |-> (c \div st[k]) % N[k]]
IndexOf(d, st) == 1 + SumTo([k \in 1..Len(d) |-> d[k] * st[k]], 1, Len(d))
NP(g) == Len(g.gu)
D(g) == Len(g.n)
Shape(g) == g.n \o <<NP(g)>>
Cells(g) == Prod(Shape(g))
Zeros(k) == [i \in 1..k |-> 0]
Filled(g) == [g EXCEPT !.v = Zeros(Cells(g)), !.w = Zeros(Cells(g))]
Center(g, k) == g.lo[k] + ((g.n[k] * g.px[k]) \div 2)
Mid(g, k, j) == g.lo[k] + j * g.px[k] + (g.px[k] \div 2)     \* center of cell j (from 0)

(* a new array of shape N whose cell with digits d is F(d) *)
Build(N, F(_)) == LET st == Strides(N) IN [i \in 1..Prod(N) |-> F(Digits(i - 1, N, st))]

(* the grid with cells v, w on the same axes *)
With(g, v, w) == [g EXCEPT !.v = v, !.w = w]
RealOnly(g) == \A i \in 1..Len(g.w) : g.w[i] = 0

AxesOK(g, ax) == \A i \in 1..Len(ax) : ax[i] \in 0..(D(g) - 1)
PropsOK(g, ps) == \A i \in 1..Len(ps) : ps[i] \in 0..(NP(g) - 1)
AllAxes(g) == Range0(D(g))
AllProps(g) == Range0(NP(g))
Pos(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x

Ok(g) == [err |-> FALSE, g |-> g]
Err(g) == [err |-> TRUE, g |-> g]

(* --------------------------------------------------------------- creation *)
(* the number of cells a length takes: a twentieth of a cell is let go *)
CellsFor(side, px) == LET q == side \div px  r == side % px IN
                      IF 20 * r < px THEN q ELSE q + 1
Spread(q, k) == IF Len(q) = 1 THEN [i \in 1..k |-> q[1]] ELSE q
NewOK(e) == LET d == Len(e.c) IN
            /\ Len(e.side) \in {1, d} /\ Len(e.px) \in {1, d}
            /\ Len(e.au) \in {0, 1, d} /\ Len(e.gu) \in {0, 1, e.np}
Units(q, k) == IF q = <<>> THEN [i \in 1..k |-> ""] ELSE Spread(q, k)
Blank(lo, px, n, au, gu) ==
    [lo |-> lo, px |-> px, n |-> n, au |-> au, gu |-> gu, four |-> [i \in 1..Len(n) |-> FALSE],
     ps |-> FALSE, act |-> FALSE, nobj |-> 0, v |-> <<>>, w |-> <<>>]
New(e) == LET d == Len(e.c)
              px == Spread(e.px, d)
              n == [i \in 1..d |-> CellsFor(Spread(e.side, d)[i], px[i])]
          IN Blank([i \in 1..d |-> e.c[i] - ((n[i] * px[i]) \div 2)], px, n,
                   Units(e.au, d), Units(e.gu, e.np))
Uniform(a) == \A i \in 2..(Len(a) - 1) : a[i + 1] - a[i] = a[2] - a[1]
FromAxes(e) == LET d == Len(e.axes) IN
               Blank([i \in 1..d |-> e.axes[i][1]], [i \in 1..d |-> e.axes[i][2] - e.axes[i][1]],
                     [i \in 1..d |-> Len(e.axes[i]) - 1], Units(e.au, d), Units(e.gu, e.np))
FromAxesOK(e) == /\ \A i \in 1..Len(e.axes) : Uniform(e.axes[i])
                 /\ Len(e.au) \in {0, 1, Len(e.axes)} /\ Len(e.gu) \in {0, 1, e.np}
Init0(g) == Filled([g EXCEPT !.act = TRUE, !.nobj = 0])
(* GridFromAxesAndFunction, with a linear function of the cell centers *)
FromFunction(e) ==
    LET g == Init0(FromAxes([e EXCEPT !.np = 1])) IN
    With(g, Build(Shape(g), LAMBDA d : VS * e.b + SumTo([k \in 1..D(g) |-> e.a[k] * Mid(g, k, d[k]) * (VS \div XS)], 1, D(g))), g.w)

(* ---------------------------------------------------- putting objects in *)
InGrid(g, p) == \A k \in 1..Len(p) : p[k] >= g.lo[k] /\ p[k] < g.lo[k] + g.n[k] * g.px[k]
CellOf(g, p) == [k \in 1..Len(p) |-> (p[k] - g.lo[k]) \div g.px[k]]
AddProps(g, k, v, w) ==     \* append k properties, cells of the whole in v, w
    [g EXCEPT !.gu = @ \o [i \in 1..k |-> ""], !.v = v, !.w = w]
(* the array of shape N of the sums of contributions: Add(d) *)
Appended(g, k, F(_)) ==     \* digits of the new property count from 0
    LET N == g.n \o <<NP(g) + k>>  ost == Strides(Shape(g))  d0 == D(g) + 1
        X(arr, new(_)) == Build(N, LAMBDA d : IF d[d0] < NP(g) THEN arr[IndexOf(d, ost)] ELSE new([d EXCEPT ![d0] = d[d0] - NP(g)]))
    IN AddProps(g, k, X(g.v, F), X(g.w, LAMBDA d : 0))

AddCat(g, e) ==
    LET np == Len(e.pos)
        cols == e.cols      \* number of columns of values (1 if there are none)
        props == IF e.all THEN AllProps(g) ELSE e.props
        val(i, c) == IF e.count THEN VS ELSE e.vals[i][c]
        cell == [i \in 1..np |-> IF InGrid(g, e.pos[i]) THEN CellOf(g, e.pos[i]) ELSE <<>>]
        inside == {i \in 1..np : InGrid(g, e.pos[i])}
        spot(d) == SubSeq(d, 1, D(g))
        total(d, c) == SumTo([i \in 1..np |-> IF i \in inside /\ cell[i] = spot(d) THEN val(i, c) ELSE 0], 1, np)
    IN  IF ~g.act \/ (\E k \in 1..D(g) : g.four[k]) THEN Err(g)
        ELSE IF np = 0 THEN Ok(IF e.new THEN Appended(g, cols, LAMBDA d : 0) ELSE g)
        ELSE IF (\E i \in 1..np : Len(e.pos[i]) # D(g)) \/ (~e.count /\ Len(e.vals) # np) THEN Err(g)
        ELSE IF e.new
             THEN Ok([Appended(g, cols, LAMBDA d : total(d, d[D(g) + 1] + 1)) EXCEPT !.nobj = @ + Cardinality(inside)])
        ELSE IF ~PropsOK(g, props) \/ cols \notin {1, Len(props)} THEN Err(g)
        ELSE LET add(d) == LET p == d[D(g) + 1] IN
                           IF p \in SetOf(props) THEN total(d, IF cols = 1 THEN 1 ELSE Pos(props, p)) ELSE 0
                 st == Strides(Shape(g))
             IN Ok([With(g, Build(Shape(g), LAMBDA d : g.v[IndexOf(d, st)] + add(d)), g.w)
                       EXCEPT !.nobj = @ + Cardinality(inside)])

(* spectra: pos has one coordinate less, rows[i] the values along axis ax *)
Without(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Axis(g, ax) == IF ax < 0 THEN D(g) + ax ELSE ax
AddRows(g, a, pos, rows, new, all, props0) ==
    LET np == Len(pos)
        props == IF all THEN AllProps(g) ELSE props0
        h == [lo |-> Without(g.lo, a), px |-> Without(g.px, a), n |-> Without(g.n, a)]
        inside == {i \in 1..np : InGrid(h, pos[i])}
        cell == [i \in 1..np |-> IF i \in inside THEN CellOf(h, pos[i]) ELSE <<>>]
        spot(d) == Without(SubSeq(d, 1, D(g)), a)
        total(d) == SumTo([i \in 1..np |-> IF i \in inside /\ cell[i] = spot(d) THEN rows[i][d[a] + 1] ELSE 0], 1, np)
        st == Strides(Shape(g))
    IN  IF new THEN Ok([Appended(g, 1, total) EXCEPT !.nobj = @ + Cardinality(inside)])
        ELSE IF ~PropsOK(g, props) THEN Err(g)
        ELSE Ok([With(g, Build(Shape(g), LAMBDA d : g.v[IndexOf(d, st)] +
                    (IF d[D(g) + 1] \in SetOf(props) THEN total(d) ELSE 0)), g.w)
                       EXCEPT !.nobj = @ + Cardinality(inside)])
CanAdd(g) == g.act /\ \A k \in 1..D(g) : ~g.four[k]
AddArr(g, e) ==
    LET a == Axis(g, e.ax) + 1 IN
    IF ~CanAdd(g) \/ a \notin 1..D(g) THEN Err(g)
    ELSE IF e.pos = <<>> THEN Ok(IF e.new THEN Appended(g, 1, LAMBDA d : 0) ELSE g)
    ELSE IF (\E i \in 1..Len(e.pos) : Len(e.pos[i]) # D(g) - 1) \/ Len(e.vals) # Len(e.pos)
            \/ (\E i \in 1..Len(e.vals) : Len(e.vals[i]) # g.n[a]) THEN Err(g)
    ELSE AddRows(g, a, e.pos, e.vals, e.new, e.all, e.props)
(* add_from_spec_func: a line at x0 of strength y (given as the strength up to a
   frequency), or y + s * frequency *)
AddSpec(g, e) ==
    LET a == Axis(g, e.ax) + 1
        row(i) == LET p == e.par[i] IN
            [j \in 1..g.n[a] |->
               IF e.cum THEN (IF g.lo[a] + (j - 1) * g.px[a] < p[1] /\ p[1] <= g.lo[a] + j * g.px[a] THEN p[2] ELSE 0)
               ELSE p[2] + p[1] * Mid(g, a, j - 1) * (VS \div XS)]
    IN  IF ~CanAdd(g) \/ a \notin 1..D(g) THEN Err(g)
        ELSE IF e.pos = <<>> THEN Ok(IF e.new THEN Appended(g, 1, LAMBDA d : 0) ELSE g)
        ELSE IF (\E i \in 1..Len(e.pos) : Len(e.pos[i]) # D(g) - 1) \/ Len(e.par) # Len(e.pos) \/ e.short THEN Err(g)
        ELSE AddRows(g, a, e.pos, [i \in 1..Len(e.pos) |-> row(i)], e.new, e.all, e.props)

NewProp(g, e) ==
    IF ~g.act THEN IF e.given THEN Err(g) ELSE Ok([g EXCEPT !.gu = Append(@, "")])
    ELSE IF ~e.given THEN Ok(Appended(g, 1, LAMBDA d : 0))
    ELSE IF e.shape = g.n \/ (Len(e.shape) = D(g) + 1 /\ SubSeq(e.shape, 1, D(g)) = g.n)
         THEN LET k == IF e.shape = g.n THEN 1 ELSE e.shape[D(g) + 1]
                  st == Strides(g.n \o <<k>>)
              IN Ok(Appended(g, k, LAMBDA d : e.vals[IndexOf(d, st)]))
    ELSE Err(g)

(* Gridder: center and sides fitted to the objects where they are not given *)
MinAt(pos, k) == CHOOSE x \in {pos[i][k] : i \in 1..Len(pos)} : \A i \in 1..Len(pos) : x <= pos[i][k]
MaxAt(pos, k) == CHOOSE x \in {pos[i][k] : i \in 1..Len(pos)} : \A i \in 1..Len(pos) : x >= pos[i][k]
Fitted(e) ==
    IF ~e.autoc /\ ~e.autos THEN e
    ELSE LET d == Len(e.pos[1])
             px == Spread(e.px, d)
             c == [k \in 1..d |-> MinAt(e.pos, k) + ((MaxAt(e.pos, k) - MinAt(e.pos, k)) \div 2)]
             s == [k \in 1..d |-> (((MaxAt(e.pos, k) - MinAt(e.pos, k)) \div px[k]) + 1) * px[k]]
         IN [e EXCEPT !.c = IF e.autoc THEN c ELSE @, !.side = IF e.autos THEN s ELSE @]

(* PSF and SpectralPSF, with a half width at half maximum of one cell: the value
   k cells from the center is 2^-(k^2), and 2^-((k x)^2) in the channels in which
   the width is 1/x of it *)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Bell(e) ==      \* e.x: <<>>, or the square of x for every channel
    LET d == Len(e.px)
        n == [k \in 1..d |-> CellsFor(e.side[k], e.px[k])]
        m == IF e.x = <<>> THEN n ELSE Append(n, Len(e.x))
        lo == [k \in 1..d |-> -((n[k] * e.px[k]) \div 2)]
        g == Blank(IF e.x = <<>> THEN lo ELSE Append(lo, e.lo), IF e.x = <<>> THEN e.px ELSE Append(e.px, e.step), m, Units(e.au, Len(m)), <<"">>)
        ex(q) == SumTo([k \in 1..d |-> LET r == q[k] - (n[k] \div 2) IN r * r * (IF e.x = <<>> THEN 1 ELSE e.x[q[d + 1] + 1])], 1, d)
    IN [Init0(g) EXCEPT !.v = Build(Shape(g), LAMBDA q : VS \div Pow2(ex(q)))]

(* ----------------------------------------------- properties, copies, sums *)
Pick(g, ps) ==      \* the grid with properties ps only
    LET st == Strides(Shape(g))
        N == g.n \o <<Len(ps)>>
        X(arr) == IF g.act THEN Build(N, LAMBDA d : arr[IndexOf([d EXCEPT ![D(g) + 1] = ps[d[D(g) + 1] + 1]], st)]) ELSE <<>>
    IN [g EXCEPT !.gu = [i \in 1..Len(ps) |-> g.gu[ps[i] + 1]], !.v = X(g.v), !.w = X(g.w)]
SumP(g, ps) ==      \* sums over properties, one number per place
    LET st == Strides(Shape(g))
        X(arr) == Build(g.n \o <<1>>, LAMBDA d :
                    SumTo([i \in 1..Len(ps) |-> arr[IndexOf([d EXCEPT ![D(g) + 1] = ps[i]], st)]], 1, Len(ps)))
    IN [v |-> X(g.v), w |-> X(g.w)]
CommonUnits(g, k) ==
    IF k = NP(g) THEN g.gu
    ELSE IF \A i \in 1..NP(g) : g.gu[i] = g.gu[1] THEN [i \in 1..k |-> g.gu[1]] ELSE [i \in 1..k |-> ""]
AxesOf(g, k) == Blank(g.lo, g.px, g.n, g.au, CommonUnits(g, k))
SumNew(g, ps) == LET s == SumP(g, ps) IN [Init0(AxesOf(g, 1)) EXCEPT !.v = s.v, !.w = s.w, !.four = g.four, !.ps = g.ps]
SumIn(g, ps) == LET s == SumP(g, ps)
                    one == Strides(g.n \o <<1>>)
                    h == Appended(g, 1, LAMBDA d : s.v[IndexOf(d, one)])
                    i == Appended(With(g, g.w, g.w), 1, LAMBDA d : s.w[IndexOf(d, one)])
                IN [h EXCEPT !.w = i.v]

(* --------------------------------------------------------------- sampling *)
Sample(g, e) ==
    LET ps == IF e.all THEN AllProps(g) ELSE e.props
        st == Strides(Shape(g))
    IN  IF ~g.act \/ ~PropsOK(g, ps) \/ (\E i \in 1..Len(e.pos) : Len(e.pos[i]) # D(g)) THEN [err |-> TRUE, out |-> <<>>]
        ELSE [err |-> FALSE,
              out |-> [i \in 1..Len(e.pos) |-> [j \in 1..Len(ps) |->
                        IF InGrid(g, e.pos[i]) THEN g.v[IndexOf(Append(CellOf(g, e.pos[i]), ps[j]), st)] ELSE NAN]]]

(* -------------------------------------------------------------- reshaping *)
(* keep cells off..off+m-1 of every axis (cells beyond the old ones get val) *)
Window(g, off, m, val) ==
    LET N == m \o <<NP(g)>>
        st == Strides(Shape(g))
        X(arr, x) == IF ~g.act THEN <<>> ELSE Build(N, LAMBDA d :
                   LET o == [k \in 1..Len(d) |-> IF k > D(g) THEN d[k] ELSE d[k] + off[k]] IN
                   IF \A k \in 1..D(g) : o[k] \in 0..(g.n[k] - 1) THEN arr[IndexOf(o, st)] ELSE x)
    IN [g EXCEPT !.n = m, !.v = X(g.v, val), !.w = X(g.w, 0)]
Pad(g, e) ==
    LET amt == Spread(e.pad, Len(e.ax))
        of(k) == IF (k - 1) \in SetOf(e.ax) THEN amt[Pos(e.ax, k - 1)] ELSE 0
        m == [k \in 1..D(g) |-> g.n[k] + 2 * of(k)]
        h == Window(g, [k \in 1..D(g) |-> -of(k)], m, e.val)
    IN  IF ~AxesOK(g, e.ax) \/ Len(e.pad) \notin {1, Len(e.ax)} THEN Err(g)
        ELSE IF \E k \in 1..D(g) : m[k] < 1 THEN Err(g)
        ELSE Ok([h EXCEPT !.lo = [k \in 1..D(g) |-> IF g.four[k] THEN g.lo[k] ELSE g.lo[k] - of(k) * g.px[k]],
                          !.px = [k \in 1..D(g) |-> IF g.four[k] THEN (g.px[k] * g.n[k]) \div m[k] ELSE g.px[k]]])
Crop(g, e) ==
    LET a == e.ax + 1
        keep == {j \in 0..(g.n[a] - 1) : (e.min = NAN \/ Mid(g, a, j) >= e.min) /\ (e.max = NAN \/ Mid(g, a, j) <= e.max)}
        j0 == CHOOSE j \in keep : \A i \in keep : j <= i
        lo == IF e.min = NAN THEN g.lo[a] ELSE e.min
        hi == IF e.max = NAN THEN g.lo[a] + g.n[a] * g.px[a] ELSE e.max
        h == Window(g, [k \in 1..D(g) |-> IF k = a THEN j0 ELSE 0], [g.n EXCEPT ![a] = Cardinality(keep)], 0)
    IN  IF e.ax \notin 0..(D(g) - 1) THEN Err(g)
        ELSE IF g.four[a] \/ hi <= lo \/ keep = {} THEN Err(g)
        ELSE Ok([h EXCEPT !.lo[a] = @ + j0 * g.px[a]])
(* factors are num/den *)
Scale(g, e) ==
    LET f == Spread(e.f, Len(e.ax))
        in(k) == (k - 1) \in SetOf(e.ax)
        by(k, x) == IF in(k) THEN (x * f[Pos(e.ax, k - 1)][1]) \div f[Pos(e.ax, k - 1)][2] ELSE x
        u == IF e.same THEN <<>> ELSE Spread(e.au, Len(e.ax))
    IN  IF ~AxesOK(g, e.ax) \/ Len(e.f) \notin {1, Len(e.ax)} \/ (~e.same /\ Len(e.au) \notin {1, Len(e.ax)}) THEN Err(g)
        ELSE Ok([g EXCEPT !.px = [k \in 1..D(g) |-> by(k, g.px[k])],
                          !.lo = [k \in 1..D(g) |-> IF e.center THEN by(k, g.lo[k])
                                                   ELSE Center(g, k) + by(k, g.lo[k] - Center(g, k))],
                          !.au = [k \in 1..D(g) |-> IF in(k) /\ ~e.same THEN u[Pos(e.ax, k - 1)] ELSE g.au[k]]])
DownAxis(g, a, f, avg) ==
    LET m == g.n[a] \div f
        N == [g.n EXCEPT ![a] = m] \o <<NP(g)>>
        st == Strides(Shape(g))
        X(arr) == IF ~g.act THEN <<>> ELSE Build(N, LAMBDA d :
                    LET s == SumTo([i \in 1..f |-> arr[IndexOf([d EXCEPT ![a] = d[a] * f + i - 1], st)]], 1, f)
                    IN IF avg THEN s \div f ELSE s)
    IN [g EXCEPT !.n[a] = m, !.px[a] = @ * f, !.v = X(g.v), !.w = X(g.w)]
RECURSIVE DownAll(_, _, _, _)
DownAll(g, ax, f, avg) == IF ax = <<>> THEN g ELSE DownAll(DownAxis(g, ax[1] + 1, f[1], avg), Tail(ax), Tail(f), avg)
Down(g, e) ==
    LET f == Spread(e.f, Len(e.ax)) IN
    IF ~AxesOK(g, e.ax) \/ Len(e.f) \notin {1, Len(e.ax)} \/ e.mode \notin {"average", "sum"} THEN Err(g)
    ELSE IF \E i \in 1..Len(e.ax) : g.four[e.ax[i] + 1] \/ f[i] < 1 \/ f[i] > g.n[e.ax[i] + 1] THEN Err(g)
    ELSE Ok(DownAll(g, e.ax, f, e.mode = "average"))

(* weights: per axis in ax, the shape of the array of weights and its elements *)
WeightOf(g, ax, wt, d) ==    \* product of the weights of the cell with digits d
    Prod([i \in 1..Len(wt) |->
        LET s == wt[i].shape IN
        IF Len(s) = 1 THEN wt[i].x[d[ax[i] + 1] + 1]
        ELSE wt[i].x[IndexOf(SubSeq(d, 1, Len(s)), Strides(s))]])
Collapse(g, e) ==
    LET ax == e.ax
        keep == SelectSeq(AllAxes(g), LAMBDA x : x \notin SetOf(ax))
        sel(q) == [i \in 1..Len(keep) |-> q[keep[i] + 1]]
        N == sel(g.n) \o <<NP(g)>>
        gone == [i \in 1..Len(ax) |-> g.n[ax[i] + 1]]
        gst == Strides(gone)
        st == Strides(Shape(g))
        full(d, c) == [k \in 1..(D(g) + 1) |->
                         IF k = D(g) + 1 THEN d[Len(d)]
                         ELSE IF (k - 1) \in SetOf(ax) THEN (c \div gst[Pos(ax, k - 1)]) % gone[Pos(ax, k - 1)]
                         ELSE d[Pos(keep, k - 1)]]
        M == Prod(gone)
        wgt(q) == IF e.wt = <<>> THEN 1 ELSE WeightOf(g, ax, e.wt, q)
        X(arr) == Build(N, LAMBDA d :
                    LET s == SumTo([c \in 1..M |-> LET q == full(d, c - 1) IN wgt(q) * arr[IndexOf(q, st)]], 1, M)
                        t == SumTo([c \in 1..M |-> wgt(full(d, c - 1))], 1, M)
                    IN IF e.mode = "average" THEN s \div t ELSE s)
        wok(i) == LET s == e.wt[i].shape IN
                  IF Len(s) = 1 THEN s[1] = g.n[ax[i] + 1] ELSE s = g.n \/ s = Shape(g)
    IN  IF ~g.act \/ ~AxesOK(g, ax) \/ e.mode \notin {"average", "sum"} THEN Err(g)
        ELSE IF e.wt # <<>> /\ (Len(e.wt) # Len(ax) \/ \E i \in 1..Len(e.wt) : ~wok(i)) THEN Err(g)
        ELSE Ok([g EXCEPT !.n = sel(g.n), !.lo = sel(g.lo), !.px = sel(g.px), !.au = sel(g.au), !.four = sel(g.four),
                          !.v = X(g.v), !.w = X(g.w)])

(* ------------------------------------------------------- Fourier transforms *)
(* exact for axes of 1, 2 and 4 cells: powers of -i (forward) and of i *)
Tw(q) == LET m == q % 4 IN CASE m = 0 -> <<1, 0>> [] m = 1 -> <<0, -1>> [] m = 2 -> <<-1, 0>> [] m = 3 -> <<0, 1>>
Wave(n, m) == (m - (n \div 2)) % n       \* the wave number at place m
FTAxis(g, a, norm) ==
    LET n == g.n[a]
        st == Strides(Shape(g))
        fwd == ~g.four[a]
        term(d, j) ==    \* contribution of place j to place d[a]
            LET i == IndexOf([d EXCEPT ![a] = j], st)
                q == (IF fwd THEN j * Wave(n, d[a]) ELSE -(Wave(n, j) * d[a])) * (4 \div n)
                t == Tw(q)
            IN <<g.v[i] * t[1] - g.w[i] * t[2], g.v[i] * t[2] + g.w[i] * t[1]>>
        scale(x) == IF fwd THEN (IF norm THEN (x * g.px[a]) \div XS ELSE x)
                    ELSE (IF norm THEN (x * XS) \div (g.px[a] * n) ELSE x \div n)
        X(c) == Build(Shape(g), LAMBDA d : scale(SumTo([j \in 1..n |-> term(d, j - 1)[c]], 1, n)))
    IN [g EXCEPT !.v = X(1), !.w = X(2), !.four[a] = fwd]
RECURSIVE FTAll(_, _, _)
FTAll(g, ax, norm) == IF ax = <<>> THEN g ELSE FTAll(FTAxis(g, ax[1] + 1, norm), Tail(ax), norm)
Transform(g, e) ==
    LET ax == IF e.all THEN AllAxes(g) ELSE e.ax IN
    IF ~g.act \/ g.ps \/ ~AxesOK(g, ax) THEN Err(g) ELSE Ok(FTAll(g, ax, e.norm))

(* the coefficient of wave number zero along axis ax, of every line of cells *)
ZeroWave(g, e) ==
    LET a == e.ax + 1
        st == Strides(Shape(g))
        N == [Shape(g) EXCEPT ![a] = 1]
        x(arr) == Build(N, LAMBDA d : LET s == SumTo([j \in 1..g.n[a] |-> arr[IndexOf([d EXCEPT ![a] = j - 1], st)]], 1, g.n[a])
                                     IN IF e.norm THEN (s * g.px[a]) \div XS ELSE s)
    IN <<x(g.v), x(g.w)>>
(* to the representation in which exactly the axes ax are in Fourier space *)
InSpace(g, ax, norm) ==
    FTAll(g, SelectSeq(AllAxes(g), LAMBDA x : (x \in SetOf(ax)) # g.four[x + 1]), norm)
Times(a, b) == (a * b) \div VS
(* twice the cosine of m/6 of a turn *)
Cos6(m) == LET k == m % 6 IN CASE k = 0 -> 2 [] k \in {1, 5} -> 1 [] k \in {2, 4} -> -1 [] k = 3 -> -2
(* the same for axes of 3 and 6 cells, all in real space, of real grids *)
PowerReal(g, h, ax, norm) ==
    LET np == IF NP(g) > NP(h) THEN NP(g) ELSE NP(h)
        N == g.n \o <<np>>
        gst == Strides(Shape(g))
        hst == Strides(Shape(h))
        M == Prod([i \in 1..Len(ax) |-> g.n[ax[i] + 1]])
        mn == [i \in 1..Len(ax) |-> g.n[ax[i] + 1]]
        mst == Strides(mn)
        put(d, c) == LET q == Digits(c, mn, mst) IN
                     [k \in 1..(D(g) + 1) |-> IF k <= D(g) /\ (k - 1) \in SetOf(ax) THEN q[Pos(ax, k - 1)] ELSE d[k]]
        at(x, d) == [d EXCEPT ![D(g) + 1] = IF NP(x) = 1 THEN 0 ELSE @]
        ang(d, c1, c2) == LET p == Digits(c1, mn, mst)  q == Digits(c2, mn, mst) IN
                          SumTo([i \in 1..Len(ax) |-> Wave(mn[i], d[ax[i] + 1]) * (p[i] - q[i]) * (6 \div (mn[i]))], 1, Len(ax))
        pw(x) == IF norm THEN (x * Prod([i \in 1..Len(ax) |-> g.px[ax[i] + 1] * h.px[ax[i] + 1]])) \div Prod([i \in 1..Len(ax) |-> (XS * XS)]) ELSE x
    IN Build(N, LAMBDA d : pw(SumTo([c \in 1..(M * M) |->
            LET c1 == (c - 1) \div M  c2 == (c - 1) % M IN
            ((g.v[IndexOf(put(at(g, d), c1), gst)] * h.v[IndexOf(put(at(h, d), c2), hst)]) \div VS) * Cos6(ang(d, c1, c2))], 1, M * M) \div 2))
Power(g, h, e) ==       \* h the second grid (g itself for an auto power spectrum)
    LET ax == IF e.all THEN AllAxes(g) ELSE e.ax
        f == InSpace(g, ax, e.norm)
        k == InSpace(h, ax, e.norm)
        np == IF NP(g) > NP(h) THEN NP(g) ELSE NP(h)
        N == g.n \o <<np>>
        fst == Strides(Shape(f))
        kst == Strides(Shape(k))
        at(x, d) == [d EXCEPT ![D(g) + 1] = IF NP(x) = 1 THEN 0 ELSE @]
        six == \E i \in 1..Len(ax) : g.n[ax[i] + 1] \in {3, 6}
        v == IF six THEN PowerReal(g, h, ax, e.norm)
             ELSE Build(N, LAMBDA d : LET i == IndexOf(at(f, d), fst)  j == IndexOf(at(k, d), kst) IN
                     Times(f.v[i], k.v[j]) + Times(f.w[i], k.w[j]))
        f2 == IF six THEN [g EXCEPT !.four = [q \in 1..D(g) |-> (q - 1) \in SetOf(ax)]] ELSE f
    IN  IF ~g.act \/ g.ps \/ ~h.act \/ h.ps THEN Err(g)
        ELSE IF g.n # h.n \/ (NP(g) # NP(h) /\ NP(g) # 1 /\ NP(h) # 1) \/ ~AxesOK(g, ax) THEN Err(g)
        ELSE Ok([f2 EXCEPT !.gu = IF np = NP(g) THEN g.gu ELSE [i \in 1..np |-> g.gu[1]],
                          !.v = v, !.w = Zeros(Len(v)), !.ps = TRUE])

(* -------------------------------------------------------------- convolution *)
(* over axes ax, like the leading axes of the source; the rest one to one *)
Convolve(g, s, e) ==
    LET ax == IF e.all THEN Range0(D(s)) ELSE e.ax
        sn == [k \in 1..(D(g) + 1) |-> IF k = D(g) + 1 THEN NP(s) ELSE IF k <= D(s) THEN s.n[k] ELSE 1]
        sst == Strides(sn)
        gst == Strides(Shape(g))
        gn == Shape(g)
        cv(k) == k <= D(g) /\ (k - 1) \in SetOf(ax)
        M == Prod([k \in 1..(D(g) + 1) |-> IF cv(k) THEN sn[k] ELSE 1])
        mst == Strides([k \in 1..(D(g) + 1) |-> IF cv(k) THEN sn[k] ELSE 1])
        mn == [k \in 1..(D(g) + 1) |-> IF cv(k) THEN sn[k] ELSE 1]
        term(d, c, arr) ==
            LET j == Digits(c, mn, mst)
                src == [k \in 1..(D(g) + 1) |-> IF cv(k) THEN j[k] ELSE IF sn[k] = 1 THEN 0 ELSE d[k]]
                own == [k \in 1..(D(g) + 1) |-> IF cv(k) THEN d[k] + ((sn[k] - 1) \div 2) - j[k] ELSE d[k]]
            IN IF \A k \in 1..D(g) : own[k] \in 0..(g.n[k] - 1)
               THEN arr[IndexOf(own, gst)] * s.v[IndexOf(src, sst)] ELSE 0
        X(arr) == Build(gn, LAMBDA d : SumTo([c \in 1..M |-> term(d, c - 1, arr)], 1, M) \div VS)
    IN  IF ~g.act \/ (\E k \in 1..D(g) : g.four[k]) \/ ~s.act \/ g.ps \/ D(s) > D(g) \/ ~AxesOK(g, ax) THEN Err(g)
        ELSE IF Len(e.pad) > 1 /\ Len(e.pad) # Len(ax) THEN Err(g)
        ELSE IF \E k \in 1..(D(g) + 1) : ~cv(k) /\ sn[k] # 1 /\ sn[k] # gn[k] THEN Err(g)
        ELSE Ok([g EXCEPT !.v = X(g.v), !.w = X(g.w)])

(* --------------------------------------------------------- spherical averages *)
(* distances (squared, in 1/128 of a unit) from the center over axes ax; shells  *)
(* are given by edges in 1/128. For every shell, remaining place and property:   *)
(* the cells, their weights and sums.                                            *)
Shells(g, e) ==
    LET ax == IF e.all THEN AllAxes(g) ELSE e.ax
        st == Strides(Shape(g))
        fs == AxesOK(g, ax) /\ g.four[ax[1] + 1]
        \* twice the distance from the center along axis k, in 1/64 (real space) or
        \* in wave numbers times e.fu (Fourier space: axes of equal length)
        off(k, j) == IF fs THEN 2 * (j - (g.n[k] \div 2)) * e.fu[k] ELSE 2 * (Mid(g, k, j) - (IF e.c = <<>> THEN Center(g, k) ELSE e.c[k]))
        r2(d) == SumTo([i \in 1..Len(ax) |-> LET k == ax[i] + 1 IN off(k, d[k]) * off(k, d[k])], 1, Len(ax))
        sh(d) == LET r == r2(d) IN {b \in 1..(Len(e.edges) - 1) : e.edges[b] * e.edges[b] <= r /\ r < e.edges[b + 1] * e.edges[b + 1]}
        keep == SelectSeq(AllAxes(g), LAMBDA x : x \notin SetOf(ax))
        cells == Cells(g)
        dg == [i \in 1..cells |-> Digits(i - 1, Shape(g), st)]
        N == <<Len(e.edges) - 1>> \o [i \in 1..Len(keep) |-> g.n[keep[i] + 1]] \o <<NP(g)>>
        wst == Strides(e.wt.shape)
        wgt(d) == IF e.wt.x = <<>> THEN 1
                  ELSE e.wt.x[IndexOf([k \in 1..Len(e.wt.shape) |-> IF e.wt.shape[k] = 1 THEN 0 ELSE d[k]], wst)]
        shof == [i \in 1..cells |-> sh(dg[i])]
        mem(o) == {i \in 1..cells : /\ (o[1] + 1) \in shof[i]
                                    /\ \A k \in 1..Len(keep) : dg[i][keep[k] + 1] = o[k + 1]
                                    /\ dg[i][D(g) + 1] = o[Len(o)]}
        \* values to a quarter
        tot(S, F(_)) == SumTo([i \in 1..cells |-> IF i \in S THEN F(i) ELSE 0], 1, cells)
    IN  IF e.shells THEN [err |-> ~g.act \/ ~AxesOK(g, ax), n |-> <<>>, w |-> <<>>, w2 |-> <<>>, s |-> <<>>, t |-> <<>>, q |-> <<>>]
        ELSE IF fs /\ (\A i \in 1..Len(ax) : g.four[ax[i] + 1]) /\ \E i, j \in 1..Len(ax) : LET a == ax[i] + 1  b == ax[j] + 1 IN e.fu[a] * g.n[a] * g.px[a] # e.fu[b] * g.n[b] * g.px[b]
             THEN Assert(FALSE, <<"units of wave numbers", e>>)
        ELSE IF ~g.act \/ ~AxesOK(g, ax) THEN [err |-> TRUE, n |-> <<>>, w |-> <<>>, w2 |-> <<>>, s |-> <<>>, t |-> <<>>, q |-> <<>>]
        ELSE IF \E i \in 1..Len(ax) : g.four[ax[i] + 1] # fs
             THEN [err |-> TRUE, n |-> <<>>, w |-> <<>>, w2 |-> <<>>, s |-> <<>>, t |-> <<>>, q |-> <<>>]
        ELSE LET A(F(_)) == Build(N, LAMBDA o : tot(mem(o), F)) IN
             [err |-> FALSE,
              n |-> A(LAMBDA i : 1),
              w |-> A(LAMBDA i : wgt(dg[i])),
              w2 |-> A(LAMBDA i : wgt(dg[i]) * wgt(dg[i])),
              s |-> A(LAMBDA i : wgt(dg[i]) * (g.v[i] \div (VS \div 4))),
              t |-> A(LAMBDA i : wgt(dg[i]) * (g.w[i] \div (VS \div 4))),
              q |-> A(LAMBDA i : wgt(dg[i]) * ((g.v[i] \div (VS \div 4)) * (g.v[i] \div (VS \div 4))
                                               + (g.w[i] \div (VS \div 4)) * (g.w[i] \div (VS \div 4))))]

(* ------------------------------------------------------------------ pictures *)
(* The sum, over the axes which are neither shown nor fixed, of property p: the *)
(* picture of axes a (across) and b (up), row by row from below. fix[k] is the  *)
(* cell of axis k shown, or -1.                                                 *)
Image(g, p, a, b, fix) ==
    LET st == Strides(Shape(g))
        rest == SelectSeq(AllAxes(g), LAMBDA k : k # a /\ k # b /\ fix[k + 1] = -1)
        N == [i \in 1..Len(rest) |-> g.n[rest[i] + 1]]
        rs == Strides(N)
        at(x, y, q) == [k \in 1..(D(g) + 1) |->
                          IF k = D(g) + 1 THEN p ELSE IF k = a + 1 THEN x ELSE IF k = b + 1 THEN y
                          ELSE IF fix[k] # -1 THEN fix[k]
                          ELSE Digits(q, N, rs)[Pos(rest, k - 1)]]
    IN [y \in 1..g.n[b + 1] |-> [x \in 1..g.n[a + 1] |->
           SumTo([q \in 1..Prod(N) |-> g.v[IndexOf(at(x - 1, y - 1, q - 1), st)]], 1, Prod(N))]]
(* where an axis has its cells: edges in 1/64, or in half wave numbers *)
Ruler(g, k) == LET n == g.n[k + 1] IN
               [j \in 1..(n + 1) |-> IF g.four[k + 1] THEN 2 * ((j - 1) - (n \div 2)) - 1 ELSE g.lo[k + 1] + (j - 1) * g.px[k + 1]]
NoFix(g) == [k \in 1..D(g) |-> -1]
(* visualize: the other axes summed, or each at the cell given *)
View(g, e) ==
    LET rest == SelectSeq(AllAxes(g), LAMBDA k : k \notin SetOf(e.ax))
        fix == [k \in 1..D(g) |-> IF e.sum \/ (k - 1) \in SetOf(e.ax) THEN -1 ELSE e.idx[Pos(rest, k - 1)]]
    IN  IF ~g.act \/ D(g) < 2 \/ Len(e.ax) # 2 \/ ~AxesOK(g, e.ax) \/ e.prop \notin 0..(NP(g) - 1) THEN [err |-> TRUE, out |-> <<>>]
        ELSE IF ~e.sum /\ (Len(e.idx) # Len(rest) \/ \E i \in 1..Len(rest) : e.idx[i] \notin 0..(g.n[rest[i] + 1] - 1)) THEN [err |-> TRUE, out |-> <<>>]
        ELSE [err |-> FALSE, out |-> [x |-> Ruler(g, e.ax[1]), y |-> Ruler(g, e.ax[2]),
                                      img |-> Image(g, e.prop, e.ax[1], e.ax[2], fix)]]
(* animate: the sum along the first axis of the face, with the slice shown      *)
(* marked; and slice after slice of the axis stepped along                      *)
Positive(img) == [y \in 1..Len(img) |-> [x \in 1..Len(img[y]) |-> IF img[y][x] > 0 THEN img[y][x] ELSE 0]]
Film(g, e) ==
    LET lg(img) == IF e.log THEN Positive(img) ELSE img
        f1 == e.face[1]  f2 == e.face[2]  s == e.slide
        shown(i) == [box |-> <<Ruler(g, s)[i + 1], Ruler(g, s)[i + 2]>>, img |-> lg(Image(g, e.prop, f1, f2, [NoFix(g) EXCEPT ![s + 1] = i]))]
        n == g.n[s + 1]
    IN  IF ~g.act \/ D(g) < 3 \/ Len(e.face) # 2 THEN [err |-> TRUE, out |-> <<>>]
        ELSE IF ~AxesOK(g, e.face \o <<s>>) \/ e.prop \notin 0..(NP(g) - 1) \/ e.i0 \notin 0..(n - 1) THEN [err |-> TRUE, out |-> <<>>]
        ELSE [err |-> FALSE, out |-> [x |-> Ruler(g, s), y |-> Ruler(g, f2), img |-> lg(Image(g, e.prop, s, f2, NoFix(g))),
                                      fx |-> Ruler(g, f1), fy |-> Ruler(g, f2),
                                      frames |-> <<shown(e.i0)>> \o (IF e.still THEN <<>> ELSE [i \in 1..n |-> shown(i - 1)])]]

(* ------------------------------------------------------------- the workbench *)
(* z.g: the grids by name; z.f: the files by name *)
Put(z, k, g) == [z EXCEPT !.g = [x \in DOMAIN z.g \cup {k} |-> IF x = k THEN g ELSE z.g[x]]]
Same(z) == [z |-> z, err |-> FALSE, out |-> <<>>]
Fail(z) == [z |-> z, err |-> TRUE, out |-> <<>>]
OnGrid(z, k, r) == [z |-> IF r.err THEN z ELSE Put(z, k, r.g), err |-> r.err, out |-> <<>>]
WApply(z, e) ==
    CASE e.op = "new"    -> IF NewOK(e) THEN [Same(z) EXCEPT !.z = Put(z, e.to, IF e.init THEN Init0(New(e)) ELSE New(e))] ELSE Fail(z)
      [] e.op = "axes"   -> IF FromAxesOK(e) THEN [Same(z) EXCEPT !.z = Put(z, e.to, IF e.init THEN Init0(FromAxes(e)) ELSE FromAxes(e))] ELSE Fail(z)
      [] e.op = "func"   -> IF FromAxesOK(e) /\ e.np = 1 THEN [Same(z) EXCEPT !.z = Put(z, e.to, FromFunction(e))] ELSE Fail(z)
      [] e.op = "gridder" ->
            IF (e.autoc \/ e.autos) /\ e.pos = <<>> THEN Fail(z)
            ELSE LET f == Fitted(e) IN
                 IF ~NewOK(f) THEN Fail(z)
                 ELSE LET r == AddCat(Init0(New(f)), f) IN IF r.err THEN Fail(z) ELSE OnGrid(z, e.to, r)
      [] e.op = "psf"    -> IF e.area THEN [Same(z) EXCEPT !.out = <<Bell(e)>>] ELSE [Same(z) EXCEPT !.z = Put(z, e.to, Bell(e))]
      [] e.op = "twice"  -> OnGrid(z, e.g, LET r == Transform(z.g[e.g], e) IN IF r.err THEN r ELSE Ok(z.g[e.g]))
      [] e.op = "dc"     -> IF ~z.g[e.g].act \/ z.g[e.g].ps THEN Fail(z) ELSE [Same(z) EXCEPT !.out = ZeroWave(z.g[e.g], e)]
      [] e.op = "init"   -> OnGrid(z, e.g, Ok(Init0(z.g[e.g])))
      [] e.op = "poke"   -> OnGrid(z, e.g, Ok([z.g[e.g] EXCEPT !.v[e.i] = @ + e.x]))
      [] e.op = "cat"    -> OnGrid(z, e.g, AddCat(z.g[e.g], e))
      [] e.op = "arr"    -> OnGrid(z, e.g, AddArr(z.g[e.g], e))
      [] e.op = "spec"   -> OnGrid(z, e.g, AddSpec(z.g[e.g], e))
      [] e.op = "newprop" -> OnGrid(z, e.g, NewProp(z.g[e.g], e))
      [] e.op = "sum"    -> LET g == z.g[e.g]  ps == IF e.all THEN AllProps(g) ELSE e.props IN
            IF ~g.act \/ ~PropsOK(g, ps) THEN Fail(z)
            ELSE IF e.inplace THEN OnGrid(z, e.g, Ok(SumIn(g, ps))) ELSE OnGrid(z, e.to, Ok(SumNew(g, ps)))
      [] e.op = "sample" -> LET r == Sample(z.g[e.g], e) IN [z |-> z, err |-> r.err, out |-> r.out]
      [] e.op = "pad"    -> OnGrid(z, e.g, Pad(z.g[e.g], e))
      [] e.op = "crop"   -> OnGrid(z, e.g, Crop(z.g[e.g], e))
      [] e.op = "scale"  -> OnGrid(z, e.g, Scale(z.g[e.g], e))
      [] e.op = "down"   -> OnGrid(z, e.g, Down(z.g[e.g], e))
      [] e.op = "collapse" -> OnGrid(z, IF e.inplace THEN e.g ELSE e.to, Collapse(z.g[e.g], e))
      [] e.op = "copy"   -> LET g == z.g[e.g]  ps == IF e.all THEN AllProps(g) ELSE e.props IN
            IF PropsOK(g, ps) THEN OnGrid(z, e.to, Ok(LET h == Pick(g, ps) IN IF g.act THEN h ELSE [h EXCEPT !.nobj = 0])) ELSE Fail(z)
      [] e.op = "copyaxes" -> OnGrid(z, e.to, Ok(AxesOf(z.g[e.g], e.np)))
      [] e.op = "save"   -> IF e.file \in DOMAIN z.f /\ ~e.ow THEN Fail(z)
            ELSE [Same(z) EXCEPT !.z.f = [x \in DOMAIN z.f \cup {e.file} |-> IF x = e.file THEN z.g[e.g] ELSE z.f[x]]]
      [] e.op = "load"   -> IF e.file \notin DOMAIN z.f THEN Fail(z)
            ELSE OnGrid(z, e.to, Ok(LET g == z.f[e.file] IN IF g.act THEN g ELSE [g EXCEPT !.nobj = 0]))
      [] e.op = "ft"     -> OnGrid(z, e.g, Transform(z.g[e.g], e))
      [] e.op = "power"  -> OnGrid(z, IF e.inplace THEN e.g ELSE e.to, Power(z.g[e.g], z.g[e.h], e))
      [] e.op = "conv"   -> OnGrid(z, IF e.inplace THEN e.g ELSE e.to, Convolve(z.g[e.g], z.g[e.h], e))
      [] e.op = "view"   -> LET r == View(z.g[e.g], e) IN [z |-> z, err |-> r.err, out |-> r.out]
      [] e.op = "film"   -> LET r == Film(z.g[e.g], e) IN [z |-> z, err |-> r.err, out |-> r.out]
      [] e.op = "avg"    -> LET r == Shells(z.g[e.g], e) IN [z |-> z, err |-> r.err, out |-> <<r>>]

(* --------------------------------------------------- what a grid always is *)
GridOK(g) ==
    /\ Len(g.lo) = D(g) /\ Len(g.px) = D(g) /\ Len(g.au) = D(g) /\ Len(g.four) = D(g)
    /\ \A k \in 1..D(g) : g.n[k] >= 1 /\ g.px[k] > 0
    /\ Len(g.v) = (IF g.act THEN Cells(g) ELSE 0) /\ Len(g.w) = Len(g.v)
    /\ g.ps => RealOnly(g)
    /\ g.nobj >= 0
Total(g) == Sum(g.v)
=============================================================================
