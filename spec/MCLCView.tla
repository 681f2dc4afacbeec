------------------------------ MODULE MCLCView -------------------------------
EXTENDS LCView, TLCExt, Json, IOUtils
Cfg  == JsonDeserialize(IOEnv.MENU)
Menu == Cfg.ops
FromEntries(es) == [n \in {es[i].n : i \in 1..Len(es)} |->
                      es[CHOOSE i \in 1..Len(es) : es[i].n = n]]
InitState(c) ==
    [n |-> c.n,
     disk |-> LET d == FromEntries(c.disk) IN
              [k \in DOMAIN d |-> [v |-> d[k].v, hd |-> d[k].hd, u |-> d[k].u]],
     mem |-> [k \in {} |-> 0], gen |-> {}, act |-> 1..c.n, dfl |-> c.dfl,
     ext |-> LET x == FromEntries(c.ext) IN [k \in DOMAIN x |-> x[k].x]]
VARIABLES z, last
vars == <<z, last>>
Init == /\ z = [lc |-> [k \in 1..Len(Cfg.init.lc) |-> InitState(Cfg.init.lc[k])], its |-> Cfg.init.its, geo |-> Cfg.init.geo]
        /\ last = 0 /\ PrintT(<<"I", TLCFP(z)>>)
Do(i) == z' = ZApply(z, Menu[i]).z /\ last' = i
EachA == \E i \in 1..Len(Menu) : Menu[i].op = "each" /\ Do(i)
OneA == \E i \in 1..Len(Menu) : Menu[i].op = "one" /\ Do(i)
VolumeA == \E i \in 1..Len(Menu) : Menu[i].op = "volume" /\ Do(i)
IterA == \E i \in 1..Len(Menu) : Menu[i].op = "iter" /\ Do(i)
Next == EachA \/ OneA \/ VolumeA \/ IterA
VView == z
Inv == \A k \in 1..Len(z.lc) : StateOK(z.lc[k])
StepProp == [][StepOKZ(z, Menu[last'], z')]_vars
Emit == PrintT(<<"E", TLCFP(z), last', TLCFP(z')>>)
==============================================================================
