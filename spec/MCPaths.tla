------------------------------- MODULE MCPaths -------------------------------
EXTENDS Paths, Json, IOUtils, TLCExt
Menu == JsonDeserialize(IOEnv.MENU)
VARIABLES p, op
vars == <<p, op>>
Vec == p
P0 == [file |-> None, regs |-> [r \in {} |-> 0], cur |-> [root |-> None, m |-> NoRegs],
       dirs |-> {Menu.dirs[i] : i \in 1..Len(Menu.dirs)}]
Init == p = P0 /\ op = 0 /\ PrintT(<<"I", TLCFP(P0)>>)
Step(kind) == \E k \in 1..Len(Menu.ops) : Menu.ops[k].op = kind /\ p' = Apply(p, Menu.ops[k]).p /\ op' = k
Setup == Step("setup")
Again == Step("again")
Reopen == Step("fresh")
New == Step("new")
Catalogue == Step("cat")
Cut == Step("cut")
Next == Setup \/ Again \/ Reopen \/ New \/ Catalogue \/ Cut
Emit == PrintT(<<"E", TLCFP(p), op', TLCFP(p')>>)
Inv == p.file \in {None, Empty} \/ p.file \in DOMAIN p.regs
StepProp == [][LET e == Menu.ops[op'] IN Durable(p, e, Apply(p, e))]_vars
==============================================================================
