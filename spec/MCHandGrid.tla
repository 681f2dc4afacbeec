----------------------------- MODULE MCHandGrid ------------------------------
EXTENDS HandGrid, TLCExt, Json, IOUtils
Cfg  == JsonDeserialize(IOEnv.MENU)      \* [init, geo, ops]
Menu == Cfg.ops
FromEntries(es) == [n \in {es[i].n : i \in 1..Len(es)} |->
                      es[CHOOSE i \in 1..Len(es) : es[i].n = n]]
InitState(c) ==
    [n |-> c.n,
     disk |-> LET d == FromEntries(c.disk) IN
              [k \in DOMAIN d |-> [v |-> d[k].v, hd |-> d[k].hd, u |-> d[k].u]],
     mem |-> [k \in {} |-> 0], gen |-> {}, act |-> 1..c.n, dfl |-> c.dfl,
     ext |-> LET x == FromEntries(c.ext) IN [k \in DOMAIN x |-> x[k].x]]
VARIABLES s, last
vars == <<s, last>>
Init == s = InitState(Cfg.init) /\ last = 0 /\ PrintT(<<"I", TLCFP(s)>>)
Do(i) == s' = GApply(s, Cfg.geo, Menu[i]).s /\ last' = i
GridA   == \E i \in 1..Len(Menu) : Menu[i].op = "grid" /\ Do(i)
Select  == \E i \in 1..Len(Menu) : Menu[i].op = "range" /\ Do(i)
Props   == \E i \in 1..Len(Menu) : Menu[i].op \in {"make", "write", "delete", "load", "unload"} /\ Do(i)
Unit    == \E i \in 1..Len(Menu) : Menu[i].op \in {"units", "reopen"} /\ Do(i)
Next == GridA \/ Select \/ Props \/ Unit
View == s
Inv  == StateOK(s)
Emit == PrintT(<<"E", TLCFP(s), last', TLCFP(s')>>)
StepProp == [][/\ Menu[last'].op = "grid" => s' = s
               /\ GridStepOK(s, Cfg.geo, Menu[last'])
               /\ Menu[last'].op # "grid" => StepOK(s, Menu[last'], s')]_vars
==============================================================================
