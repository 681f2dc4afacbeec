------------------------------- MODULE MCLCSet -------------------------------
EXTENDS LCSet, Json, IOUtils, TLC, TLCExt
Menu == JsonDeserialize(IOEnv.MENU)
SetOf(q) == {q[i] : i \in 1..Len(q)}
VARIABLES z, op
vars == <<z, op>>
LView == z
Init == z = [dirs |-> [k \in {} |-> 0], mk |-> [k \in {} |-> 0], keys |-> SetOf(Menu.keys)] /\ op = 0 /\ PrintT(<<"I", TLCFP(z)>>)
Can(e) == CASE e.op = "order" -> TRUE
            [] e.op = "build" -> e.name \in DOMAIN z.mk
            [] OTHER -> e.name \in DOMAIN z.mk /\ z.mk[e.name] > 0
Step(k, kind) == /\ Menu.ops[k].op = kind /\ Can(Menu.ops[k])
                 /\ z' = Apply(z, Menu.ops[k]).z /\ op' = k
K == 1..Len(Menu.ops)
Order == \E k \in K : Step(k, "order")
Build == \E k \in K : Step(k, "build")
Add == \E k \in K : Step(k, "add")
AddPos == \E k \in K : Step(k, "addpos")
Next == Order \/ Build \/ Add \/ AddPos
Emit == PrintT(<<"E", TLCFP(z), op', TLCFP(z')>>)
Inv == /\ DOMAIN z.mk \subseteq DOMAIN z.dirs
       /\ \A n \in DOMAIN z.dirs : \A k \in 1..Len(z.dirs[n]) : Basic \subseteq z.dirs[n][k]
       /\ \A n \in DOMAIN z.mk : z.mk[n] <= Len(z.dirs[n])
       (* vectors are added whole *)
       /\ \A n \in DOMAIN z.dirs : \A k \in 1..Len(z.dirs[n]) : \A s \in Stems :
            Parts(s) \cap z.dirs[n][k] \in {{}, Parts(s)}
       (* the light cones of one maker have the same columns *)
       /\ \A n \in DOMAIN z.mk : \A j, k \in 1..z.mk[n] : z.dirs[n][j] = z.dirs[n][k]
StepProp == [][LET e == Menu.ops[op'] IN
               \A n \in DOMAIN z.dirs :
                  /\ n \in DOMAIN z'.dirs
                  /\ Len(z'.dirs[n]) >= Len(z.dirs[n])
                  /\ z'.dirs[n] # z.dirs[n] => e.name = n /\ e.op # "order"
                  /\ \A k \in 1..Len(z.dirs[n]) : ~Rebuilt(z, e, n, k) => z.dirs[n][k] \subseteq z'.dirs[n][k]]_vars
==============================================================================
