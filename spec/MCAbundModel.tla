----------------------------- MODULE MCAbundModel -----------------------------
(* Catalogues that change below relations kept on disk and in objects.         *)
EXTENDS AbundModel, TLCExt, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.MENU)      \* [cats, menu, geo]
Menu == Cfg.menu
VARIABLES s, last
vars == <<s, last>>
Init == s = Init0(Cfg.cats[1]) /\ last = 0 /\ PrintT(<<"I", TLCFP(s)>>)
Act(e) == IF e.op = "recat" THEN Recat(s, Cfg.cats[e.i]) ELSE IF e.op = "construct" THEN Construct(s, e, <<>>) ELSE s
Enabled(e) == e.op = "query" => e.name \in DOMAIN s.objs
ConstructAny == \E i \in 1..Len(Menu) : Menu[i].op = "construct" /\ last' = i /\ s' = Act(Menu[i])
RecatAny     == \E i \in 1..Len(Menu) : Menu[i].op = "recat" /\ last' = i /\ s' = Act(Menu[i])
QueryAny     == \E i \in 1..Len(Menu) : Menu[i].op = "query" /\ Enabled(Menu[i]) /\ last' = i /\ s' = Act(Menu[i])
Next == ConstructAny \/ RecatAny \/ QueryAny
Emit == PrintT(<<"E", TLCFP(s), last', TLCFP(s')>>)
View == s
(* a relation on disk is kept until it is asked to be made again; objects keep *)
(* the relation they loaded                                                    *)
StepProp == [][/\ \A m \in DOMAIN s.disk : s'.disk[m] # s.disk[m] =>
                     /\ Menu[last'].op = "construct" /\ Menu[last'].model = m
                     /\ Menu[last'].remake \/ s.disk[m].none
               /\ \A n \in DOMAIN s.objs : s'.objs[n] # s.objs[n] => Menu[last'].op = "construct" /\ Menu[last'].name = n
               /\ s'.cat # s.cat => Menu[last'].op = "recat"]_vars
Depth == TLCGet("level") <= Cfg.depth
(* the galaxies matched are in the order of the halos and as abundant, for     *)
(* every relation that can be made                                             *)
Sound(rel) ==
    \A k \in 1..Len(rel.cat.snaps) :
       LET sn == rel.cat.snaps[k]
           v  == Values(rel, sn)
           d  == Galaxies(rel, sn.z)
           xs == [i \in 1..Len(v)-2 |-> v[i] + Margin(rel) + 1]
           gs == [i \in 1..Len(v)-2 |-> IF Plainly(rel, k, xs[i]) THEN At(rel, k, xs[i]) ELSE NONE]
       IN  \A i \in 1..Len(v)-2 : gs[i] # NONE =>
              /\ Abs(Above(d, gs[i]) - HalosAbove(rel, v, xs[i], rel.cat.vol)) <= 300
              /\ \A j \in i+1..Len(v)-2 : gs[j] # NONE => gs[j] >= gs[i]
ASSUME \A i \in 1..Len(Cfg.cats), j \in 1..Len(Menu) :
    (Menu[j].op = "construct" /\ ~Refused(Init0(Cfg.cats[i]), [Menu[j] EXCEPT !.remake = TRUE]))
        => Sound(Fresh(Init0(Cfg.cats[i]), Menu[j], Tables(Cfg.cats[i], Menu[j].model, Menu[j].par)))
==============================================================================
