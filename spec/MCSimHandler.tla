---------------------------- MODULE MCSimHandler -----------------------------
EXTENDS SimHandler, TLCExt, Json, IOUtils
Cfg  == JsonDeserialize(IOEnv.MENU)
Menu == Cfg.ops
FromEntries(es) == [n \in {es[i].n : i \in 1..Len(es)} |->
                      es[CHOOSE i \in 1..Len(es) : es[i].n = n]]
InitState(c) ==
    [n |-> c.n,
     disk |-> LET d == FromEntries(c.disk) IN
              [k \in DOMAIN d |-> [v |-> d[k].v, hd |-> d[k].hd, u |-> d[k].u]],
     mem |-> [k \in {} |-> 0], gen |-> {}, act |-> 1..c.n, dfl |-> c.dfl,
     ext |-> LET x == FromEntries(c.ext) IN [k \in DOMAIN x |-> x[k].x]]
VARIABLES z, last
vars == <<z, last>>
Init == /\ z = [sn |-> [k \in 1..Len(Cfg.init.sn) |-> InitState(Cfg.init.sn[k])],
                pers |-> Cfg.init.pers, dfl |-> Cfg.init.dfl]
        /\ last = 0 /\ PrintT(<<"I", TLCFP(z)>>)
Do(i) == z' = ZApply(z, Menu[i]).z /\ last' = i
MakeA   == \E i \in 1..Len(Menu) : Menu[i].op = "make" /\ Do(i)
DeleteA == \E i \in 1..Len(Menu) : Menu[i].op = "delete" /\ Do(i)
SelectA == \E i \in 1..Len(Menu) : Menu[i].op = "range" /\ Do(i)
StatA   == \E i \in 1..Len(Menu) : Menu[i].op = "stat" /\ Do(i)
OneA    == \E i \in 1..Len(Menu) : Menu[i].op = "one" /\ Do(i)
OtherA  == \E i \in 1..Len(Menu) : Menu[i].op \in {"units", "init", "reopen"} /\ Do(i)
Next == MakeA \/ DeleteA \/ SelectA \/ StatA \/ OneA \/ OtherA
VView == z
Inv == \A k \in 1..Len(z.sn) : StateOK(z.sn[k])
StepProp == [][LET e == Menu[last'] IN
               NativeSafe(z, e, z') /\ EverySnapshot(z, e, ZApply(z, e))]_vars
Emit == PrintT(<<"E", TLCFP(z), last', TLCFP(z')>>)
==============================================================================
