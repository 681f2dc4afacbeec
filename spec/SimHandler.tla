----------------------------- MODULE SimHandler ------------------------------
(* A simulation: one catalogue per snapshot, driven together. A state z is    *)
(*   sn    sequence of Handler states, in the order of the metadata           *)
(*   pers  are persistent snapshot handlers open?   dfl  unit convention      *)
(* Without persistent handlers every call works on freshly opened snapshots,  *)
(* so that only what it writes to disk survives it.                           *)
EXTENDS Handler

View(z, k) == IF z.pers THEN z.sn[k] ELSE Reopen(z.sn[k], z.dfl)
Store(z, k, t) == [z EXCEPT !.sn[k] = IF z.pers THEN t ELSE Reopen(t, z.dfl)]
ZOk(z) == [z |-> z, err |-> FALSE, outs |-> <<>>]
ZErr(z) == [z |-> z, err |-> TRUE, outs |-> <<>>]

(* Only properties marked as user defined may be replaced or removed through  *)
(* the simulation as a whole.                                                 *)
Native(t, n) == n \in DOMAIN t.disk /\ ~t.disk[n].u

RECURSIVE ZMake(_, _, _)
ZMake(z, e, k) ==
    IF k > Len(z.sn) THEN ZOk(z)
    ELSE LET t == View(z, k)
             m == DoMake(t, [e EXCEPT !.write = FALSE])
         IN
         IF e.write /\ Len(e.names) # Len(e.f.outs) THEN ZErr(z)
         ELSE IF k = 1 /\ e.write
                 /\ \E i \in 1..Len(e.names) : \/ e.names[i] \in DOMAIN t.disk /\ ~e.ow
                                               \/ Native(t, e.names[i]) THEN ZErr(z)
         ELSE IF e.fail = k \/ m.err THEN ZErr(z)      \* nothing of this snapshot changes
         ELSE IF ~e.write THEN ZMake(Store(z, k, m.s), e, k + 1)
         ELSE LET w == DoWrite(m.s, e.names, e.ow) IN
              IF w.err THEN ZErr(Store(z, k, w.s))
              ELSE ZMake(Store(z, k, DoUnload(w.s, e.names).s), e, k + 1)

RECURSIVE ZDelete(_, _, _)
ZDelete(z, e, k) ==
    IF k > Len(z.sn) THEN ZOk(z)
    ELSE LET t == View(z, k)
             d == DoDelete(t, e.ns)
         IN
         IF k = 1 /\ \E i \in 1..Len(e.ns) : Native(t, e.ns[i]) THEN ZErr(z)
         ELSE IF d.err THEN ZErr(Store(z, k, d.s))
         ELSE ZDelete(Store(z, k, d.s), e, k + 1)

RECURSIVE ZRange(_, _, _)
ZRange(z, e, k) ==
    IF k > Len(z.sn) THEN ZOk(z)
    ELSE LET d == DoRange(View(z, k), e) IN
         IF d.err THEN ZErr(z) ELSE ZRange(Store(z, k, d.s), e, k + 1)

ZStat(z, e) ==
    LET r == [k \in 1..Len(z.sn) |-> DoStat(View(z, k), e)] IN
    IF \E k \in 1..Len(z.sn) : r[k].err THEN ZErr(z)
    ELSE [z |-> z, err |-> FALSE, outs |-> [k \in 1..Len(z.sn) |-> r[k].out]]

ZInit(z) == [z EXCEPT !.pers = TRUE, !.sn = [k \in 1..Len(z.sn) |-> Reopen(z.sn[k], z.dfl)]]
ZUnits(z, v) == [z EXCEPT !.dfl = v, !.sn = [k \in 1..Len(z.sn) |-> [z.sn[k] EXCEPT !.dfl = v]]]

(* a call on one snapshot, through the handler the simulation hands out *)
ZOne(z, e) == LET r == Apply(View(z, e.k), e.call) IN
              [z |-> Store(z, e.k, r.s), err |-> r.err, outs |-> <<r.out>>]

ZApply(z, e) ==
    CASE e.op = "make"   -> IF ~z.pers /\ ~e.write THEN ZErr(z) ELSE ZMake(z, e, 1)
      [] e.op = "delete" -> ZDelete(z, e, 1)
      [] e.op = "range"  -> IF ~z.pers THEN ZErr(z) ELSE ZRange(z, [e EXCEPT !.inh = IF e.inh = "d" THEN (IF z.dfl THEN "t" ELSE "f") ELSE e.inh], 1)
      [] e.op = "stat"   -> ZStat(z, e)
      [] e.op = "units"  -> ZOk(ZUnits(z, e.v))
      [] e.op = "init"   -> IF z.pers /\ ~e.remake THEN ZErr(z) ELSE ZOk(ZInit(z))
      [] e.op = "one"    -> ZOne(z, e)
      [] e.op = "reopen" -> ZOk([z EXCEPT !.pers = e.pers, !.dfl = e.v,
                                    !.sn = [k \in 1..Len(z.sn) |-> Reopen(z.sn[k], e.v)]])

------------------------------------------------------------------------------
(* No call on the simulation as a whole touches the values, the units or the  *)
(* ownership of a native property, in any snapshot.                           *)
NativeSafe(z, e, y) ==
    e.op # "one" =>
    \A k \in 1..Len(z.sn) : \A n \in DOMAIN z.sn[k].disk :
        Native(z.sn[k], n) => n \in DOMAIN y.sn[k].disk /\ y.sn[k].disk[n] = z.sn[k].disk[n]
(* A making call that writes and succeeds leaves the property on disk, marked *)
(* as user defined, in every snapshot; a deletion that succeeds, in none.     *)
EverySnapshot(z, e, r) ==
    /\ (e.op = "make" /\ e.write /\ ~r.err) =>
          \A k \in 1..Len(z.sn) : \A i \in 1..Len(e.names) :
              e.names[i] \in DOMAIN r.z.sn[k].disk /\ r.z.sn[k].disk[e.names[i]].u
    /\ (e.op = "delete" /\ ~r.err) =>
          \A k \in 1..Len(z.sn) : \A i \in 1..Len(e.ns) : e.ns[i] \notin DOMAIN r.z.sn[k].disk
==============================================================================
