------------------------------ MODULE HandGrid -------------------------------
(* Gridding a catalogue: a snapshot in its box, a light cone on the sky. The   *)
(* catalogue is a Handler; a grid call takes the positions and properties of   *)
(* the halos it is asked for, in the units it is asked for, and adds every     *)
(* halo to its cell.                                                           *)
(*   geo   [kind |-> "snap", boxh, box]  or                                    *)
(*         [kind |-> "cone", w, asp, zmin, zmax]  (w: opening angle, its other *)
(*         side w * asp / 16), all in 1/SC                                     *)
(* Lengths of a grid are in 1/U, values of cells in 1/OS.                      *)
EXTENDS Handler
U  == 6400
OS == 16384
XU == U \div SC
OU == OS \div SC

AxisNames(geo) == IF geo.kind = "snap" THEN <<"pos_x", "pos_y", "pos_z">> ELSE <<"ra", "dec", "redshift">>
(* the limits an axis has unless they are given *)
DefLim(geo, e, inh, k) ==
    IF geo.kind = "snap" THEN <<0, (IF inh THEN geo.boxh ELSE geo.box) * XU>>
    ELSE CASE k = 1 -> <<-(geo.w * XU) \div 2, (geo.w * XU) \div 2>>
           [] k = 2 -> <<-((geo.w * geo.asp * XU) \div 32), (geo.w * geo.asp * XU) \div 32>>
           [] k = 3 -> IF e.rf = 0 THEN <<geo.zmin * XU, geo.zmax * XU>>
                       ELSE <<(e.rf * U * SC) \div (SC + geo.zmax), (e.rf * U * SC) \div (SC + geo.zmin)>>
Lim(geo, e, inh, k) == LET q == IF e.lims[k] = <<>> THEN DefLim(geo, e, inh, k) ELSE e.lims[k] IN
                       IF q[1] < q[2] THEN q ELSE <<q[2], q[1]>>
CellsFor(side, px) == LET q == side \div px  r == side % px IN IF 20 * r < px THEN q ELSE q + 1
Size(e, k, side) == CASE e.res = <<>> -> side \div 100
                      [] Len(e.res) = 1 -> e.res[1]
                      [] Len(e.res) = 3 -> e.res[k]
(* an axis: lower edge, width and number of cells *)
AxisOf(geo, e, inh, k) ==
    LET q == Lim(geo, e, inh, k)
        px == Size(e, k, q[2] - q[1])
        n == CellsFor(q[2] - q[1], px)
    IN [lo |-> q[1] + ((q[2] - q[1] - n * px) \div 2), px |-> px, n |-> n]
(* the cell of a coordinate (in 1/SC), or -1. Frequencies are rf / (1 + z).   *)
CellAt(a, freq, rf, x) ==
    IF x = NAN THEN -1
    ELSE LET num == IF freq THEN rf * U * SC - a.lo * (SC + x) ELSE x * XU - a.lo
             den == IF freq THEN a.px * (SC + x) ELSE a.px
             j == num \div den
         IN IF j < 0 \/ j >= a.n THEN -1 ELSE j
(* x divided by a length (a power of two) *)
Per(x, px) == IF x = NAN THEN NAN ELSE IF px >= U THEN x \div (px \div U) ELSE x * (U \div px)
Normed(e, ax, x) ==
    IF x = NAN THEN NAN
    ELSE CASE e.norm = "none" -> x
           [] e.norm = "vol"  -> Per(Per(Per(x, ax[1].px), ax[2].px), ax[3].px)
           [] e.norm = "by"   -> (x * e.num) \div e.den
RECURSIVE SumIn(_, _)
SumIn(q, I) == IF I = {} THEN 0
               ELSE LET i == CHOOSE i \in I : TRUE
                        r == SumIn(q, I \ {i})
                    IN IF q[i] = NAN \/ r = NAN THEN NAN ELSE q[i] + r
GridErr(s, geo, e) ==
    \/ \E k \in 1..3 : AxisNames(geo)[k] \notin All(s)
    \/ \E i \in 1..Len(e.ps) : e.ps[i] \notin All(s)
    \/ \E k \in 1..3 : Len(e.lims[k]) \notin {0, 2}
    \/ Len(e.res) \notin {0, 1, 3}
    \/ e.norm = "vol" /\ geo.kind = "cone"
    \/ e.norm = "bad"
(* [axes, nobj, np, cells: {<<i, j, k, p, value>> : value not 0}] *)
GridOf(s, geo, e) ==
    LET inh == InH(s, e.inh)
        ax == [k \in 1..3 |-> AxisOf(geo, e, inh, k)]
        pos == [k \in 1..3 |-> Ret(s, AxisNames(geo)[k], e.all, inh)]
        val == [p \in 1..Len(e.ps) |-> Ret(s, e.ps[p], e.all, inh)]
        m == Len(pos[1])
        cell == [i \in 1..m |-> [k \in 1..3 |-> CellAt(ax[k], k = 3 /\ geo.kind = "cone" /\ e.rf > 0, e.rf, pos[k][i])]]
        in == {i \in 1..m : \A k \in 1..3 : cell[i][k] >= 0}
        tot(c, p) == Normed(e, ax, LET x == SumIn(val[p], {i \in in : cell[i] = c}) IN IF x = NAN THEN NAN ELSE x * OU)
        hit == {cell[i] : i \in in}
    IN [axes |-> ax, nobj |-> Cardinality(in), np |-> Len(e.ps),
        cells |-> {c \in {<<q[1], q[2], q[3], p - 1, tot(q, p)>> : q \in hit, p \in 1..Len(e.ps)} : c[5] # 0}]

GApply(s, geo, e) ==
    IF e.op = "grid" THEN [s |-> s, err |-> GridErr(s, geo, e),
                           out |-> IF GridErr(s, geo, e) THEN <<>> ELSE <<GridOf(s, geo, e)>>]
    ELSE Apply(s, e)
------------------------------------------------------------------------------
(* what gridding is for: no halo asked for whose position is in the grid is    *)
(* lost, none is counted twice, and the sum over the cells is the sum over the *)
(* halos                                                                       *)
SumCells(C, p) == LET RECURSIVE S(_)
                      S(Q) == IF Q = {} THEN 0 ELSE LET c == CHOOSE c \in Q : TRUE IN c[5] + S(Q \ {c})
                  IN S({c \in C : c[4] = p})
GridStepOK(s, geo, e) ==
    (e.op = "grid" /\ ~GridErr(s, geo, e)) =>
        LET g == GridOf(s, geo, e)
            inh == InH(s, e.inh)
            whole == \A k \in 1..3 : e.lims[k] = <<>>
        IN /\ g.nobj <= (IF e.all THEN s.n ELSE Cardinality(s.act))
           /\ \A c \in g.cells : \A k \in 1..3 : c[k] \in 0..(g.axes[k].n - 1)
           /\ (geo.kind = "snap" /\ whole) =>
                 /\ g.nobj = Len(Ret(s, "pos_x", e.all, inh))     \* every halo is in its box
                 /\ \A p \in 1..Len(e.ps) :
                       (e.norm = "none" /\ \A i \in 1..s.n : Val(s, e.ps[p])[i] # NAN) =>
                          SumCells(g.cells, p - 1) = OU * SumIn(Ret(s, e.ps[p], e.all, inh), 1..g.nobj)
==============================================================================
