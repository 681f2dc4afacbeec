------------------------------ MODULE MCDataDir ------------------------------
EXTENDS DataDir, Json, IOUtils, TLC, TLCExt
Menu == JsonDeserialize(IOEnv.MENU)
VARIABLES z, op
vars == <<z, op>>
Vec == z
Z0 == [web |-> [s \in 0..Menu.n-1 |-> 1], raw |-> [k \in {} |-> 0], dir |-> FALSE, alien |-> FALSE, meta |-> None,
       inst |-> [snaps |-> 0..Menu.n-1, meta |-> None],
       data |-> [ex |-> FALSE, g |-> [s \in {} |-> 0]], parts |-> 1..Menu.parts, arch |-> Menu.arch]
Init == z = Z0 /\ op = 0 /\ PrintT(<<"I", TLCFP(Z0)>>)
Step(k, kind) == /\ Menu.ops[k].op = kind
                 /\ z' = Apply(z, Menu.ops[k]).z
                 /\ op' = k
K == 1..Len(Menu.ops)
Open == \E k \in K : Step(k, "open")
Meta == \E k \in K : Step(k, "meta")
Download == \E k \in K : Step(k, "download")
Format == \E k \in K : Step(k, "format")
Clean == \E k \in K : Step(k, "clean")
World == \E k \in K : Step(k, "publish") \/ Step(k, "lose") \/ Step(k, "alien") \/ Step(k, "losemeta")
Next == Open \/ Meta \/ Download \/ Format \/ Clean \/ World
Emit == PrintT(<<"E", TLCFP(z), op', TLCFP(z')>>)
(* asking again, with the metadata at hand, completes what an interruption left *)
Completes(y, e) == (e.op = "download" /\ e.down = <<>> /\ (y.arch = "files" \/ y.inst.meta # None))
                   => \A s \in y.inst.snaps : Complete(Apply(y, e).z, s)
Inv == /\ ~z.dir => DOMAIN z.raw = {}
       /\ DOMAIN z.data.g # {} => z.data.ex
StepProp == [][LET e == Menu.ops[op'] r == Apply(z, e) IN Keeps(z, e, r.z) /\ Delivers(z, e, r) /\ Atomic(z, e, r) /\ Completes(z, e)]_vars
==============================================================================
