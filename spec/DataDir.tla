------------------------------ MODULE DataDir --------------------------------
(* The data directory of one simulation: downloading raw files, building the  *)
(* metadata, formatting snapshots into one file, and clearing up.             *)
(*   web    current version of every snapshot on the server                   *)
(*   raw    <<snapshot, part>> -> version of the local raw file               *)
(*   dir    does the raw folder exist      alien  someone's file inside it    *)
(*   meta   snapshots the metadata on disk covers, or None                    *)
(*   arch   how the archive is asked: single files, or whole snapshots (wget),*)
(*          with the metadata telling how many files belong to a snapshot     *)
(*   inst   the catalogue object: the snapshots it is for, the metadata it has*)
(*   data   the formatted file: ex, g (snapshot -> versions v, basic b)       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT None

FilesOf(S, F) == {<<s, f>> : s \in S, f \in F}
Ok(z) == [z |-> z, err |-> FALSE]
Err(z) == [z |-> z, err |-> TRUE]
Drop(fn, S) == [k \in DOMAIN fn \ S |-> fn[k]]
Put(fn, k, v) == [x \in DOMAIN fn \cup {k} |-> IF x = k THEN v ELSE fn[x]]
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})

(* the reply that settles a yes/no question: the first that is y or n *)
Reply(as) == LET d == {i \in 1..Len(as) : as[i] \in {"y", "n"}} IN
             IF d = {} THEN "none" ELSE as[CHOOSE i \in d : \A j \in d : i <= j]

DoOpen(z, e) == Ok([z EXCEPT !.inst = [snaps |-> {e.snaps[i] : i \in 1..Len(e.snaps)}, meta |-> z.meta]])
DoMeta(z, redo) == IF z.meta # None /\ ~redo THEN z
                   ELSE [z EXCEPT !.meta = z.inst.snaps, !.inst.meta = z.inst.snaps]

(* files a download has to fetch *)
Wanted(z, e) == LET all == FilesOf(z.inst.snaps, {e.files[i] : i \in 1..Len(e.files)}) IN
                IF e.redo THEN all
                ELSE IF z.arch = "wget" /\ z.inst.meta = None     \* the first file has to tell
                THEN {k \in all : k \notin DOMAIN z.raw /\ <<k[1], 1>> \notin DOMAIN z.raw}
                ELSE all \ DOMAIN z.raw
(* a transfer breaks off: of the first kind of archive that is an error; a    *)
(* whole snapshot is asked for until it is there, if its files are known, and *)
(* left for another time if not - unless the program is ended meanwhile       *)
Hit(z, e) == e.op = "download" /\ \E i \in 1..Len(e.down) : e.down[i] \in {k[1] : k \in Wanted(z, e)}
Ends(z, e) == Hit(z, e) /\ ~(z.arch = "wget" /\ e.flaky)
Breaks(z, e) == Hit(z, e) /\ ~(z.arch = "wget" /\ e.flaky /\ z.inst.meta # None)
DoDownload(z, e) ==
    LET y == [(IF z.arch = "wget" THEN z ELSE DoMeta(z, FALSE)) EXCEPT !.dir = TRUE]
        w == Wanted(z, e)
        get == [k \in DOMAIN z.raw \cup w |-> IF k \in w THEN z.web[k[1]] ELSE z.raw[k]]
    IN IF Ends(z, e) THEN Err(y)
       ELSE IF Breaks(z, e) THEN Ok(y)
       ELSE Ok([y EXCEPT !.raw = get])
(* after an interruption every file is what it was, or completely fetched *)
DownloadMid(z, e, raw) ==
    LET w == Wanted(z, e) IN
    \A k \in DOMAIN raw \cup DOMAIN z.raw :
        \/ k \in DOMAIN raw /\ k \in DOMAIN z.raw /\ raw[k] = z.raw[k]
        \/ k \in w /\ k \in DOMAIN raw /\ raw[k] = z.web[k[1]]
           /\ (z.arch = "wget" \/ \A i \in 1..Len(e.down) : e.down[i] # k[1])
        \/ z.arch = "wget" /\ e.redo /\ k \in w /\ k \notin DOMAIN raw

Basic(z, e) == IF e.remake \/ DOMAIN z.data.g = {} THEN e.basic
               ELSE \E s \in DOMAIN z.data.g : z.data.g[s].b
Fresh(z, e) == ~z.data.ex \/ e.remake \/ DOMAIN z.data.g = {}
Todo(z, e) == IF Fresh(z, e) \/ e.ow THEN z.inst.snaps ELSE z.inst.snaps \ DOMAIN z.data.g
Order(z, e) == IF Fresh(z, e) THEN Asc(z.inst.snaps)
               ELSE Asc(z.inst.snaps \ DOMAIN z.data.g) \o (IF e.ow THEN Asc(z.inst.snaps \cap DOMAIN z.data.g) ELSE <<>>)
Complete(z, s) == \A f \in z.parts : <<s, f>> \in DOMAIN z.raw
New(z, e, s) == [v |-> [f \in z.parts |-> z.raw[<<s, f>>]], b |-> Basic(z, e)]
Start(z, e) == IF Fresh(z, e) THEN [ex |-> TRUE, g |-> [s \in {} |-> 0]] ELSE z.data
(* e.full: the formatted file cannot be written when it is the turn of that   *)
(* many-th snapshot (no space left, or somebody else has the file open)       *)
RECURSIVE Run(_, _, _, _)
Run(z, e, y, q) ==
    IF q = <<>> THEN Ok(y)
    ELSE LET s == Head(q) IN
         IF ~Complete(z, s) \/ Len(Order(z, e)) - Len(q) + 1 = e.full THEN Err(y)
         ELSE Run(z, e, [y EXCEPT !.data.g = Put(y.data.g, s, New(z, e, s)),
                                  !.raw = IF e.clean THEN Drop(y.raw, {k \in DOMAIN y.raw : k[1] = s}) ELSE y.raw], Tail(q))
DoFormat(z, e) ==
    IF z.inst.meta = None \/ ~(z.inst.snaps \subseteq z.inst.meta) THEN Err(z)
    ELSE IF e.clean /\ e.check /\ Reply(e.answers) = "n" THEN Ok(z)
    ELSE IF e.clean /\ e.check /\ Reply(e.answers) = "none" THEN Err(z)
    ELSE Run(z, e, [z EXCEPT !.data = Start(z, e)], Order(z, e))
(* after a failure every snapshot is what it was or completely formatted; a   *)
(* raw file is only gone when its snapshot made it into the file              *)
FormatMid(z, e, d, raw) ==
    LET st == Start(z, e) IN
    /\ d.ex = st.ex
    /\ \A s \in DOMAIN d.g \cup DOMAIN st.g :
          \/ s \in DOMAIN d.g /\ s \in DOMAIN st.g /\ d.g[s] = st.g[s]
          \/ s \in Todo(z, e) /\ Complete(z, s) /\ s \in DOMAIN d.g /\ d.g[s] = New(z, e, s)
    /\ \A k \in DOMAIN z.raw : \/ k \in DOMAIN raw
                               \/ e.clean /\ k[1] \in Todo(z, e) /\ Complete(z, k[1])
                                  /\ k[1] \in DOMAIN d.g /\ d.g[k[1]] = New(z, e, k[1])
    /\ \A k \in DOMAIN raw : k \in DOMAIN z.raw /\ raw[k] = z.raw[k]

Refused(z, e) == z.inst.meta = None \/ ~(z.inst.snaps \subseteq z.inst.meta)
                 \/ (e.clean /\ e.check /\ Reply(e.answers) = "none")

DoClean(z, e) ==
    CASE Reply(e.answers) = "y" -> Ok([z EXCEPT !.raw = [k \in {} |-> 0], !.dir = FALSE, !.alien = FALSE])
      [] Reply(e.answers) = "n" -> Ok(z)
      [] OTHER -> Err(z)

Apply(z, e) ==
    CASE e.op = "open"     -> DoOpen(z, e)
      [] e.op = "meta"     -> Ok(DoMeta(z, e.redo))
      [] e.op = "download" -> DoDownload(z, e)
      [] e.op = "format"   -> DoFormat(z, e)
      [] e.op = "clean"    -> DoClean(z, e)
      \* the world around it
      [] e.op = "publish"  -> Ok([z EXCEPT !.web[e.s] = e.v])
      [] e.op = "lose"     -> Ok([z EXCEPT !.raw = Drop(z.raw, {<<e.s, e.f>>})])
      [] e.op = "alien"    -> Ok([z EXCEPT !.dir = TRUE, !.alien = TRUE])
      [] e.op = "losemeta" -> Ok([z EXCEPT !.meta = None])

------------------------------------------------------------------------------
(* What a user relies on, over every step z -> y = Apply(z, e).z *)
Keeps(z, e, y) ==
    /\ e.op # "format" => y.data = z.data
    /\ (e.op = "format" /\ ~e.remake) =>                     \* appending never drops anything
          \A s \in DOMAIN z.data.g : s \in DOMAIN y.data.g /\ (~e.ow => y.data.g[s] = z.data.g[s])
    /\ \A s \in DOMAIN y.data.g : s \in DOMAIN z.data.g \/ s \in z.inst.snaps
    /\ \A s, t \in DOMAIN y.data.g : y.data.g[s].b = y.data.g[t].b   \* one set of fields throughout
    /\ e.op \in {"download", "meta", "open"} => DOMAIN z.raw \subseteq DOMAIN y.raw
    /\ (e.op = "download" /\ ~e.redo) => \A k \in DOMAIN z.raw : y.raw[k] = z.raw[k]
    /\ (DOMAIN y.raw # DOMAIN z.raw /\ e.op = "format") => e.clean
(* formatting what is completely downloaded, with metadata, works and delivers it *)
Delivers(z, e, r) ==
    (e.op = "format" /\ ~e.clean /\ e.full = 0 /\ z.inst.meta # None /\ z.inst.snaps \subseteq z.inst.meta
       /\ \A s \in z.inst.snaps : Complete(z, s))
    => ~r.err /\ z.inst.snaps \subseteq DOMAIN r.z.data.g
(* a failed call never leaves a snapshot half formatted (or half fetched)     *)
Atomic(z, e, r) ==
    /\ (e.op = "format" /\ r.err /\ ~Refused(z, e)) => FormatMid(z, e, r.z.data, r.z.raw)
    /\ (e.op = "format" /\ Refused(z, e)) => r.err /\ r.z = z
    /\ Breaks(z, e) => DownloadMid(z, e, r.z.raw)
==============================================================================
