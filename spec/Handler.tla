------------------------------- MODULE Handler -------------------------------
(* The catalogue handler: one catalogue (a snapshot or a light cone) on disk, *)
(* properties held in memory, the active selection, and the unit convention.  *)
(*                                                                            *)
(* Values are fixed-point integers in units of 1/SC; the Hubble parameter of  *)
(* the modelled catalogues is h = 1/2, so that unit conversions are exact.    *)
(*                                                                            *)
(* A state s is a record                                                      *)
(*   n     number of objects          disk  name -> [v, hd, u]                *)
(*   mem   name -> [v, hd]            gen   names made by this handler        *)
(*   act   active object numbers      dfl   default for "values in h units"   *)
(*   ext   name -> scalar             (extra arguments functions may ask for) *)
(* Apply(s, e) is the effect of one public call e: the new state, whether the *)
(* call must fail, and what it must return.                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANT SC

NAN == 1999999999

NoH(v, d) == IF v = NAN THEN NAN
             ELSE IF d >= 0 THEN v \div (2^d) ELSE v * (2^(0-d))   \* v * h^d
ToH(v, d) == NoH(v, 0 - d)                                         \* v / h^d

All(s)   == DOMAIN s.disk \cup DOMAIN s.mem
Val(s,n) == IF n \in DOMAIN s.mem THEN s.mem[n].v ELSE s.disk[n].v
Hd(s,n)  == IF n \in DOMAIN s.mem THEN s.mem[n].hd ELSE s.disk[n].hd

Drop(f, n)   == [k \in DOMAIN f \ {n} |-> f[k]]
Put(f, n, x) == [k \in DOMAIN f \cup {n} |-> IF k = n THEN x ELSE f[k]]

Lt(a, b) == a < b
Idx(s, all) == IF all THEN [i \in 1..s.n |-> i] ELSE SetToSortSeq(s.act, Lt)
InH(s, flag) == IF flag = "d" THEN s.dfl ELSE flag = "t"
Conv(v, hd, inh) == IF inh THEN v ELSE NoH(v, hd)

Ret(s, n, all, inh) ==
    LET ix == Idx(s, all) IN
    [j \in 1..Len(ix) |-> Conv(Val(s, n)[ix[j]], Hd(s, n), inh)]

(* the scalar arguments: box_edge follows the default unit convention *)
Extra(s, n) == IF n = "box_edge"
               THEN (IF s.dfl THEN s.ext["box_edge_h"] ELSE s.ext["box_edge_no_h"])
               ELSE s.ext[n]
Extras(s) == DOMAIN s.ext \cup (IF "box_edge_h" \in DOMAIN s.ext THEN {"box_edge"} ELSE {})

Known(s, n) == n \in All(s) \/ n \in Extras(s)
Arg(s, n, all, inh) ==
    IF n \in All(s) THEN Ret(s, n, all, inh)
    ELSE [j \in 1..Len(Idx(s, all)) |-> Extra(s, n)]

Lin(a, x, b, y, k) == IF x = NAN \/ y = NAN THEN NAN ELSE a * x + b * y + k * SC

Ok(s)       == [s |-> s, err |-> FALSE, out |-> <<>>]
Err(s)      == [s |-> s, err |-> TRUE, out |-> <<>>]
Give(s, o)  == [s |-> s, err |-> FALSE, out |-> o]

------------------------------------------------------------------------------
(* load / unload: sequential over the given names, stopping at the first that *)
(* cannot be served                                                           *)
LoadOne(s, n) == [s EXCEPT !.mem = Put(@, n, [v |-> s.disk[n].v, hd |-> s.disk[n].hd])]
RECURSIVE DoLoad(_, _)
DoLoad(s, ns) ==
    IF ns = <<>> THEN Ok(s)
    ELSE IF Head(ns) \notin DOMAIN s.disk THEN Err(s)
    ELSE DoLoad(LoadOne(s, Head(ns)), Tail(ns))

(* a property that exists only in memory is gone once it is unloaded *)
UnloadOne(s, n) == [s EXCEPT !.mem = Drop(@, n),
                             !.gen = IF n \in DOMAIN s.disk THEN @ ELSE @ \ {n}]
RECURSIVE DoUnload(_, _)
DoUnload(s, ns) ==
    IF ns = <<>> THEN Ok(s) ELSE DoUnload(UnloadOne(s, Head(ns)), Tail(ns))

WriteOne(s, n) == [s EXCEPT !.disk = Put(@, n, [v |-> s.mem[n].v, hd |-> s.mem[n].hd, u |-> TRUE])]
RECURSIVE DoWrite(_, _, _)
DoWrite(s, ns, ow) ==
    IF ns = <<>> THEN Ok(s)
    ELSE IF Head(ns) \notin DOMAIN s.mem THEN Err(s)
    ELSE IF Head(ns) \in DOMAIN s.disk /\ ~ow THEN Err(s)
    ELSE DoWrite(WriteOne(s, Head(ns)), Tail(ns), ow)

DeleteOne(s, n) == [s EXCEPT !.disk = Drop(@, n), !.mem = Drop(@, n), !.gen = @ \ {n}]
RECURSIVE DoDelete(_, _)
DoDelete(s, ns) ==
    IF ns = <<>> THEN Ok(s)
    ELSE IF Head(ns) \notin DOMAIN s.disk THEN Err(s)
    ELSE DoDelete(DeleteOne(s, Head(ns)), Tail(ns))

DoRet(s, e) == IF e.n \notin All(s) THEN Err(s)
               ELSE Give(s, Ret(s, e.n, e.all, InH(s, e.inh)))

------------------------------------------------------------------------------
(* make: e.f = [outs: seq of [n, a, b, hd], x, y, giveh, reth]; e.names are   *)
(* the (possibly renamed) targets, e.k an extra keyword argument              *)
FunVals(s, f, k, all, o) ==
    LET x == Arg(s, f.x, all, f.giveh)
        y == Arg(s, f.y, all, f.giveh)
        r == [j \in 1..Len(x) |-> Lin(o.a, x[j], o.b, y[j], k)]
    IN  IF f.reth THEN r ELSE [j \in 1..Len(r) |-> ToH(r[j], o.hd)]

Spread(s, all, vals) ==
    LET ix == Idx(s, all) IN
    [i \in 1..s.n |-> IF \E j \in 1..Len(ix) : ix[j] = i
                      THEN vals[CHOOSE j \in 1..Len(ix) : ix[j] = i] ELSE NAN]

RECURSIVE PutAll(_, _, _, _, _, _, _)
PutAll(s0, s, f, names, k, all, i) ==
    IF i > Len(names) THEN s
    ELSE PutAll(s0,
           [s EXCEPT !.mem = Put(@, names[i], [v  |-> Spread(s0, all, FunVals(s0, f, k, all, f.outs[i])),
                                               hd |-> f.outs[i].hd]),
                     !.gen = IF names[i] \in All(s0) THEN @ ELSE @ \cup {names[i]}],
           f, names, k, all, i + 1)

DoMake(s, e) ==
    IF ~e.all /\ e.write /\ s.act # 1..s.n THEN Err(s)
    ELSE IF Len(e.names) # Len(e.f.outs) THEN Err(s)
    ELSE IF \E i \in 1..Len(e.names) : e.names[i] \in All(s) /\ ~e.ow THEN Err(s)
    ELSE IF ~Known(s, e.f.x) \/ ~Known(s, e.f.y) THEN Err(s)
    ELSE LET s1 == PutAll(s, s, e.f, e.names, e.k, e.all, 1) IN
         IF ~e.write THEN Ok(s1)
         ELSE LET w == DoWrite(s1, e.names, e.owd) IN
              IF w.err THEN w
              ELSE IF e.unl THEN DoUnload(w.s, e.names) ELSE w

------------------------------------------------------------------------------
(* selection: pmin/pmax inclusive, in the units asked for *)
InRange(v, lo, hi) == v # NAN /\ lo <= v /\ v <= hi
DoRange(s, e) ==
    IF e.n = "" THEN Ok([s EXCEPT !.act = 1..s.n])
    ELSE IF e.n \notin All(s) THEN Err(s)
    ELSE LET vals == Ret(s, e.n, TRUE, InH(s, e.inh))
             hit  == {i \in 1..s.n : InRange(vals[i], e.lo, e.hi)}
         IN  Ok([s EXCEPT !.act = IF e.reset THEN hit ELSE hit \cap @])

(* statistics: the function is handed x and y in the units asked for *)
DoStat(s, e) ==
    IF ~Known(s, e.x) \/ ~Known(s, e.y) THEN Err(s)
    ELSE LET inh == InH(s, e.inh)
             x == Arg(s, e.x, e.all, inh)
             y == Arg(s, e.y, e.all, inh)
         IN  Give(s, [j \in 1..Len(x) |-> Lin(1, x[j], e.b, y[j], e.k)])

(* pictures: a plot shows y against x, one series for every y (with "cmp" the *)
(* series of all objects and, over it, that of the active ones); a histogram  *)
(* counts the objects between each pair of edges, the last edge included. On a *)
(* logarithmic axis the edges lie just above the values e.edges.              *)
Series(s, e, y, all) == [lab |-> IF e.all = "cmp" /\ ~all THEN "" ELSE y,
                         x |-> Ret(s, e.x, all, InH(s, e.inh)), y |-> Ret(s, y, all, InH(s, e.inh))]
DoPlot(s, e) ==
    IF \E i \in 1..Len(e.ns) : e.ns[i] \notin All(s) \/ e.x \notin All(s) THEN Err(s)
    ELSE Give(s, FlattenSeq([i \in 1..Len(e.ns) |->
                    CASE e.all = "cmp" -> <<Series(s, e, e.ns[i], TRUE), Series(s, e, e.ns[i], FALSE)>>
                      [] e.all = "all" -> <<Series(s, e, e.ns[i], TRUE)>>
                      [] OTHER         -> <<Series(s, e, e.ns[i], FALSE)>>]))
HowMany(v, S(_)) == Cardinality({i \in 1..Len(v) : v[i] # NAN /\ S(v[i])})
InBin(v, e, j) == LET a == e.edges[j]  b == e.edges[j + 1] IN
                IF e.log THEN HowMany(v, LAMBDA x : a < x /\ x <= b)
                ELSE HowMany(v, LAMBDA x : a <= x /\ (x < b \/ (x = b /\ j + 1 = Len(e.edges))))
DoHist(s, e) ==
    IF \E i \in 1..Len(e.ns) : e.ns[i] \notin All(s) THEN Err(s)
    ELSE Give(s, [i \in 1..Len(e.ns) |->
                    LET v == Ret(s, e.ns[i], e.all = "all", InH(s, e.inh))
                    IN [lab |-> e.ns[i], n |-> [j \in 1..(Len(e.edges) - 1) |-> InBin(v, e, j)]]])

Reopen(s, dfl) == [s EXCEPT !.mem = [k \in {} |-> 0], !.gen = {}, !.act = 1..s.n, !.dfl = dfl]

Apply(s, e) ==
    CASE e.op = "load"   -> DoLoad(s, e.ns)
      [] e.op = "unload" -> DoUnload(s, e.ns)
      [] e.op = "write"  -> DoWrite(s, e.ns, e.ow)
      [] e.op = "delete" -> DoDelete(s, e.ns)
      [] e.op = "ret"    -> DoRet(s, e)
      [] e.op = "make"   -> DoMake(s, e)
      [] e.op = "range"  -> DoRange(s, e)
      [] e.op = "stat"   -> DoStat(s, e)
      [] e.op = "plot"   -> DoPlot(s, e)
      [] e.op = "hist"   -> DoHist(s, e)
      [] e.op = "units"  -> Ok([s EXCEPT !.dfl = e.v])
      [] e.op = "reopen" -> Ok(Reopen(s, e.v))

------------------------------------------------------------------------------
(* what holds in every state, and of every step *)
StateOK(s) ==
    /\ s.gen \subseteq All(s)
    /\ s.act \subseteq 1..s.n
    /\ \A n \in All(s) : Len(Val(s, n)) = s.n
    /\ \A n \in DOMAIN s.disk : n \notin DOMAIN s.mem => Val(s, n) = s.disk[n].v

StepOK(s, e, t) ==
    /\ t.disk # s.disk => e.op \in {"write", "delete", "make"}
    /\ t.act # s.act   => e.op \in {"range", "reopen"}
    /\ \A n \in DOMAIN s.disk :
          (n \notin DOMAIN t.disk) => e.op = "delete"
    /\ e.op \in {"load", "unload"} =>
          \A n \in DOMAIN s.disk : n \in All(t)
==============================================================================
