------------------------------- MODULE Paths ---------------------------------
(* Where data live: the remembered root folder, and below each root three     *)
(* registries (sims, lcs, props) from names to folders.                       *)
(*   file   what the package remembers: a root, None, or Empty (cut short)    *)
(*   regs   root -> registry kind -> name -> folder, as stored on disk        *)
(*   cur    the open registry object: root and its three maps                 *)
(*   dirs   folders that exist                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS None, Empty
Kinds == {"sims", "lcs", "props"}
NoMap == [k \in {} |-> ""]
NoRegs == [k \in Kinds |-> NoMap]
Put(fn, k, v) == [x \in DOMAIN fn \cup {k} |-> IF x = k THEN v ELSE fn[x]]
Ext(k) == CASE k = "sims" -> "/simim_resources/simulations"
            [] k = "lcs" -> "/simim_resources/lightcones"
            [] k = "props" -> "/simim_resources/galprops"
Ok(p) == [p |-> p, err |-> FALSE]
Err(p) == [p |-> p, err |-> TRUE]

Stored(p, root) == IF root \in DOMAIN p.regs THEN p.regs[root] ELSE NoRegs
Load(p) == IF p.file \in {None, Empty} THEN [root |-> None, m |-> NoRegs]
           ELSE [root |-> p.file, m |-> Stored(p, p.file)]

(* Answering a yes/no question with the replies as: the reply that settles    *)
(* it, and the replies left.                                                  *)
Ask(as) == LET d == {i \in 1..Len(as) : as[i] \in {"y", "n"}} IN
           IF d = {} THEN [a |-> "none", rest |-> <<>>]
           ELSE LET i == CHOOSE i \in d : \A j \in d : i <= j
                IN [a |-> as[i], rest |-> SubSeq(as, i + 1, Len(as))]

(* Setting up: e.raw as typed, e.canon the absolute folder it stands for. A   *)
(* different root is only set on agreement, and nothing is touched without    *)
(* the final confirmation.                                                    *)
DoSetup(p, e) ==
    LET old == Load(p)
        differs == old.root # None /\ e.raw # old.root
        q1 == IF differs THEN Ask(e.answers) ELSE [a |-> "y", rest |-> e.answers]
        root == IF q1.a = "n" THEN old.root ELSE e.canon
        q2 == Ask(q1.rest)
    IN IF e.canon \notin p.dirs THEN Err(p)
       ELSE IF q1.a = "none" THEN Err(p)
       ELSE IF q2.a = "none" THEN Err(p)
       ELSE IF q2.a = "n" THEN Ok(p)
       ELSE Ok([p EXCEPT !.file = root, !.regs = Put(p.regs, root, Stored(p, root)),
                         !.dirs = p.dirs \cup {root \o Ext(k) : k \in Kinds}])

(* Setting up again through the registry object in use, which then shows the  *)
(* new root's registries; until the set-up goes through it shows what it did. *)
DoAgain(p, e) ==
    LET old == p.cur
        differs == old.root # None /\ e.raw # old.root
        q1 == IF differs THEN Ask(e.answers) ELSE [a |-> "y", rest |-> e.answers]
        root == IF q1.a = "n" THEN old.root ELSE e.canon
        q2 == IF e.check THEN Ask(q1.rest) ELSE [a |-> "y", rest |-> q1.rest]
        y == [p EXCEPT !.file = root, !.regs = Put(p.regs, root, Stored(p, root)),
                       !.dirs = p.dirs \cup {root \o Ext(k) : k \in Kinds}]
    IN IF q1.a = "none" \/ root \notin p.dirs \/ q2.a = "none" THEN Err(p)
       ELSE IF q2.a = "n" THEN Ok(p)
       ELSE Ok([y EXCEPT !.cur = Load(y)])

(* Registering a folder for a name, through the registry object cur.          *)
Register(p, cur, kind, name, folder, make) ==
    [p EXCEPT !.regs = Put(p.regs, cur.root, [Stored(p, cur.root) EXCEPT ![kind] = Put(Stored(p, cur.root)[kind], name, folder)]),
              !.dirs = IF make THEN p.dirs \cup {folder} ELSE p.dirs]
DoNew(p, e) ==
    LET cur == p.cur
        folder == IF e.path = "auto" THEN cur.root \o Ext(e.kind) \o "/" \o e.name ELSE e.canon
        asks == e.check /\ e.name \in DOMAIN cur.m[e.kind]
        q == IF asks THEN Ask(e.answers) ELSE [a |-> "y", rest |-> e.answers]
    IN IF cur.root = None THEN Err(p)
       ELSE IF q.a = "none" THEN Err(p)
       ELSE IF q.a = "n" THEN Ok(p)
       ELSE LET y == Register(p, cur, e.kind, e.name, folder, e.path = "auto")
            IN Ok([y EXCEPT !.cur.m[e.kind] = Put(cur.m[e.kind], e.name, folder)])

(* Making a catalogue object for simulation e.name: where it will look for    *)
(* data, and what gets remembered.                                            *)
CatPath(p, e) ==
    LET t == Load(p) IN
    IF e.path # "auto" THEN e.canon
    ELSE IF e.name \in DOMAIN t.m.sims THEN t.m.sims[e.name]
    ELSE t.root \o Ext("sims") \o "/" \o e.name
DoCat(p, e) ==
    LET t == Load(p)
        known == e.name \in DOMAIN t.m.sims
        q == IF known THEN Ask(e.answers) ELSE [a |-> "y", rest |-> e.answers]
    IN IF e.path = "auto"
       THEN IF known THEN Ok(p)
            ELSE IF t.root = None THEN Err(p)
            ELSE Ok(Register(p, t, "sims", e.name, CatPath(p, e), TRUE))
       ELSE IF e.canon \notin p.dirs THEN Err(p)
       ELSE IF ~e.update THEN Ok(p)
       ELSE IF t.root = None THEN Err(p)
       ELSE IF q.a = "none" THEN Err(p)
       ELSE IF q.a = "n" THEN Ok(p)
       ELSE Ok(Register(p, t, "sims", e.name, e.canon, FALSE))

Apply(p, e) ==
    CASE e.op = "setup" -> DoSetup(p, e)
      [] e.op = "again" -> DoAgain(p, e)
      [] e.op = "fresh" -> Ok([p EXCEPT !.cur = Load(p)])
      [] e.op = "new"   -> DoNew(p, e)
      [] e.op = "cat"   -> DoCat(p, e)
      [] e.op = "cut"   -> Ok([p EXCEPT !.file = Empty])     \* an interrupted setup
------------------------------------------------------------------------------
(* What a user relies on, over a step p -> Apply(p, e).p *)
Durable(p, e, y) ==
    /\ (e.op = "new" /\ ~y.err /\ Load(p).root = p.cur.root /\ p.cur.m = Load(p).m)
          => Load(y.p).m = y.p.cur.m                    \* what is registered is there after a restart
    /\ e.op \notin {"setup", "again", "cut"} => y.p.file = p.file
    /\ e.op = "again" => y.p.file \in {p.file, e.canon, p.cur.root} /\ (y.p = p \/ y.p.cur = Load(y.p))
    /\ y.err => y.p = p
    /\ (e.op = "setup" /\ y.p.file # p.file) => y.p.file = e.canon \/ p.file \in {None, Empty}
    \* registries of other names and kinds are left alone
    /\ \A r \in DOMAIN p.regs : r \in DOMAIN y.p.regs /\ \A k \in Kinds : \A n \in DOMAIN p.regs[r][k] :
          n \in DOMAIN y.p.regs[r][k] /\ (y.p.regs[r][k][n] = p.regs[r][k][n] \/ (e.op \in {"new", "cat"} /\ e.name = n))
==============================================================================
