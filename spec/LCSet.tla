-------------------------------- MODULE LCSet --------------------------------
(* Sets of light cones on disk: ordering them under a name, building them,   *)
(* adding properties of the parent simulation afterwards.                     *)
(*   z.dirs : name -> sequence of the light cones' sets of columns            *)
(*   z.mk   : name -> number of light cones its present maker built (0: none) *)
(*   z.keys : properties of the parent simulation                             *)
EXTENDS Integers, Sequences, FiniteSets
Basic == {"pos_x", "pos_y", "pos_z", "ra", "dec", "redshift", "mass"}
PosKeys == {"v_x", "v_y", "v_z", "spin_x", "spin_y", "spin_z", "cm_x", "cm_y", "cm_z"}
Stems == {"pos", "v", "spin", "cm"}
Parts(k) == CASE k = "pos" -> {"pos_x", "pos_y", "pos_z"} [] k = "v" -> {"v_x", "v_y", "v_z"}
              [] k = "spin" -> {"spin_x", "spin_y", "spin_z"} [] k = "cm" -> {"cm_x", "cm_y", "cm_z"} [] OTHER -> {}
NoWarn == [already |-> 0, positional |-> 0, unknown |-> 0]
Res(z, err, warn, used) == [z |-> z, err |-> err, warn |-> warn, used |-> used]
Max(a, b) == IF a > b THEN a ELSE b

(* ordering: an existing name needs consent; what was built under it stays until it is built anew *)
Answers(q) == {i \in 1..Len(q) : q[i] \in {"y", "n"}}
First(q) == CHOOSE i \in Answers(q) : \A j \in Answers(q) : i <= j
DoOrder(z, e) ==
    LET exists == e.name \in DOMAIN z.dirs
        asked  == exists /\ e.ow = "check" /\ e.simok
        used   == IF asked THEN First(e.replies) ELSE 0
        may    == /\ e.simok /\ e.ow \in {"yes", "no", "check"}
                  /\ exists => (e.ow = "yes" \/ (e.ow = "check" /\ e.replies[First(e.replies)] = "y"))
        go     == may /\ e.ok
        z1     == IF may /\ ~exists THEN [z EXCEPT !.dirs = [n \in DOMAIN z.dirs \cup {e.name} |-> IF n = e.name THEN <<>> ELSE z.dirs[n]]] ELSE z
    IN Res(IF go THEN [z1 EXCEPT !.mk = [n \in DOMAIN z.mk \cup {e.name} |-> IF n = e.name THEN 0 ELSE z.mk[n]]] ELSE z1,
           ~go, NoWarn, used)

DoBuild(z, e) ==
    LET old == z.dirs[e.name] IN
    Res([z EXCEPT !.dirs[e.name] = [k \in 1..Max(e.n, Len(old)) |-> IF k <= e.n THEN Basic ELSE old[k]],
                  !.mk[e.name] = e.n], FALSE, NoWarn, 0)

(* adding: each key is judged by itself; what is there already stays *)
Put(z, e, cols) == [z EXCEPT !.dirs[e.name] = [k \in 1..Len(z.dirs[e.name]) |->
                       IF k <= z.mk[e.name] THEN z.dirs[e.name][k] \cup cols ELSE z.dirs[e.name][k]]]
Num(q, P(_)) == Cardinality({i \in 1..Len(q) : P(q[i])})
DoAdd(z, e) ==
    LET has == z.dirs[e.name][1]
        positional(k) == k \in PosKeys
        already(k) == ~positional(k) /\ k \in has
        unknown(k) == ~positional(k) /\ ~already(k) /\ k \notin z.keys \cup {"masscheck"}
        new == {e.keys[i] : i \in {j \in 1..Len(e.keys) : ~positional(e.keys[j]) /\ ~already(e.keys[j]) /\ ~unknown(e.keys[j])}}
    IN Res(Put(z, e, new), FALSE, [already |-> Num(e.keys, already), positional |-> Num(e.keys, positional), unknown |-> Num(e.keys, unknown)], 0)
DoAddPos(z, e) ==
    LET has == z.dirs[e.name][1]
        already(k) == k \in Stems /\ Parts(k) \cap has # {}
        unknown(k) == ~already(k) /\ (k \notin Stems \/ ~(Parts(k) \subseteq z.keys))
        new == UNION {Parts(e.keys[i]) : i \in {j \in 1..Len(e.keys) : ~already(e.keys[j]) /\ ~unknown(e.keys[j])}}
    IN Res(Put(z, e, new), FALSE, [already |-> Num(e.keys, already), positional |-> 0, unknown |-> Num(e.keys, unknown)], 0)

Apply(z, e) ==
    CASE e.op = "order" -> DoOrder(z, e)
      [] e.op = "build" -> DoBuild(z, e)
      [] e.op = "add" -> DoAdd(z, e)
      [] e.op = "addpos" -> DoAddPos(z, e)

(* may the content of light cone k of set n, or only its new columns, differ after the step? *)
Rebuilt(z, e, n, k) == e.op = "build" /\ e.name = n /\ k <= e.n
------------------------------------------------------------------------------
(* what added columns hold. Light cone L: rows (snapshot, halo), flips, axes  *)
(* T (x 10^4), pos; sim: tables in 1/16. Vectors are mirrored with the box    *)
(* (spins as axial vectors are), turned to the axes of the light cone, and    *)
(* centers of mass stay where they are relative to their halo.                *)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Near(a, b, t) == Abs(a - b) <= t
Tab(sim, key, r) == sim.tab[key][r.s][r.i]
Scalar(sim, L, key, j) == Tab(sim, IF key = "masscheck" THEN "mass" ELSE key, L.rows[j])
Rel(sim, stem, r, a) ==
    IF stem # "cm" THEN Tab(sim, stem \o a, r)
    ELSE LET d == Tab(sim, "cm" \o a, r) - Tab(sim, "pos" \o a, r) IN ((d + sim.box \div 2) % sim.box) - sim.box \div 2
Seen(sim, L, stem, j) ==       \* x 10^4
    LET r == L.rows[j]
        s == IF stem = "spin" THEN L.flips[1] * L.flips[2] * L.flips[3] ELSE 1
        v == <<s * L.flips[1] * Rel(sim, stem, r, "_x"), s * L.flips[2] * Rel(sim, stem, r, "_y"), s * L.flips[3] * Rel(sim, stem, r, "_z")>>
    IN [a \in 1..3 |-> L.T[a][1] * v[1] + L.T[a][2] * v[2] + L.T[a][3] * v[3] + (IF stem = "cm" THEN L.pos[j][a] ELSE 0)]
ColumnOK(sim, L, col) ==
    /\ Len(col.v) = Len(L.rows)
    /\ LET stem == CASE col.key \in Parts("v") -> "v" [] col.key \in Parts("spin") -> "spin" [] col.key \in Parts("cm") -> "cm" [] OTHER -> ""
           a == CASE col.key \in {"v_x", "spin_x", "cm_x"} -> 1 [] col.key \in {"v_y", "spin_y", "cm_y"} -> 2 [] OTHER -> 3
       IN IF stem = "" THEN \A j \in 1..Len(L.rows) : col.v[j] = Scalar(sim, L, col.key, j)
          ELSE \A j \in 1..Len(L.rows) : Near(col.v[j], Seen(sim, L, stem, j)[a], 4000)
LabelOK(sim, col) ==
    LET k == IF col.key = "masscheck" THEN "mass" ELSE col.key IN
    /\ col.unit = sim.unit[k] /\ col.hd = sim.hd[k]
TypeOK(sim, col) ==
    LET k == IF col.key = "masscheck" THEN "mass" ELSE col.key IN
    col.key \in PosKeys \/ col.dt = sim.dt[k]
==============================================================================
