------------------------------ MODULE MCHandler ------------------------------
(* Exhaustive exploration of Handler for a small catalogue and a fixed menu   *)
(* of calls. Every transition is printed, so that the driver can take each of *)
(* them on the real code.                                                     *)
EXTENDS Handler, TLCExt, Json, IOUtils

Cfg  == JsonDeserialize(IOEnv.MENU)      \* [init, ops]
Menu == Cfg.ops

FromEntries(es) == [n \in {es[i].n : i \in 1..Len(es)} |->
                      es[CHOOSE i \in 1..Len(es) : es[i].n = n]]
InitState(c) ==
    [n |-> c.n,
     disk |-> LET d == FromEntries(c.disk) IN
              [k \in DOMAIN d |-> [v |-> d[k].v, hd |-> d[k].hd, u |-> d[k].u]],
     mem |-> [k \in {} |-> 0], gen |-> {}, act |-> 1..c.n, dfl |-> c.dfl,
     ext |-> LET x == FromEntries(c.ext) IN [k \in DOMAIN x |-> x[k].x]]

VARIABLES s, last
vars == <<s, last>>

Init == s = InitState(Cfg.init) /\ last = 0 /\ PrintT(<<"I", TLCFP(s)>>)
Load   == \E i \in 1..Len(Menu) : Menu[i].op = "load"   /\ s' = Apply(s, Menu[i]).s /\ last' = i
Unload == \E i \in 1..Len(Menu) : Menu[i].op = "unload" /\ s' = Apply(s, Menu[i]).s /\ last' = i
Write  == \E i \in 1..Len(Menu) : Menu[i].op = "write"  /\ s' = Apply(s, Menu[i]).s /\ last' = i
Delete == \E i \in 1..Len(Menu) : Menu[i].op = "delete" /\ s' = Apply(s, Menu[i]).s /\ last' = i
Make   == \E i \in 1..Len(Menu) : Menu[i].op = "make"   /\ s' = Apply(s, Menu[i]).s /\ last' = i
Select == \E i \in 1..Len(Menu) : Menu[i].op = "range"  /\ s' = Apply(s, Menu[i]).s /\ last' = i
Look   == \E i \in 1..Len(Menu) : Menu[i].op \in {"ret", "stat", "plot", "hist"}
                                   /\ s' = Apply(s, Menu[i]).s /\ last' = i
Other  == \E i \in 1..Len(Menu) : Menu[i].op \in {"units", "reopen"}
                                   /\ s' = Apply(s, Menu[i]).s /\ last' = i
Next == Load \/ Unload \/ Write \/ Delete \/ Make \/ Select \/ Look \/ Other

View == s
(* a plot has a point for every object asked for, and no others; no object is *)
(* counted twice, and all are between edges beyond them all                   *)
PicOK(e) == LET r == Apply(s, e)
                m == IF e.all = "act" THEN Cardinality(s.act) ELSE s.n
            IN  r.err \/
                CASE e.op = "plot" ->
                        \A i \in 1..Len(r.out) :
                           /\ Len(r.out[i].x) = Len(r.out[i].y)
                           /\ Len(r.out[i].x) = IF r.out[i].lab = "" THEN Cardinality(s.act) ELSE m
                  [] e.op = "hist" ->
                        \A i \in 1..Len(r.out) :
                           LET t == FoldSeq(LAMBDA a, b : a + b, 0, r.out[i].n) IN
                           /\ t <= m
                           /\ (e.edges[1] = 0 /\ e.edges[Len(e.edges)] > 100000 /\ NAN \notin {Val(s, e.ns[i])[k] : k \in 1..s.n}) => t = m
Inv  == StateOK(s) /\ \A i \in 1..Len(Menu) : Menu[i].op \in {"plot", "hist"} => PicOK(Menu[i])
Emit == StepOK(s, Menu[last'], s') /\ PrintT(<<"E", TLCFP(s), last', TLCFP(s')>>)
StepProp == [][StepOK(s, Menu[last'], s')]_vars
==============================================================================
