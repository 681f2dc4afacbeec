----------------------------- MODULE MCAbundMatch -----------------------------
(* Every match of a small family made, replaced and asked in both directions;  *)
(* what matching by abundance means is checked on each of them.                *)
EXTENDS AbundMatch, TLCExt, Json, IOUtils
Menu == JsonDeserialize(IOEnv.MENU)     \* matches, some of them refused
Qs == {-4, 0, 4, 6, 8, 16, 20, 24, 32, 36}
VARIABLES s, last
vars == <<s, last>>
Seq2Set(q) == {q[i] : i \in 1..Len(q)}
Init == s = [n \in {} |-> 0] /\ last = 0 /\ PrintT(<<"I", TLCFP(s)>>)
Names == <<"A", "B">>
MakeOne == \E i \in 1..Len(Menu), n \in {1, 2} : s' = Make(s, Names[n], Menu[i]) /\ last' = 10 * i + n
Ask == \E n \in {1, 2}, d \in {1, 2} :
          Names[n] \in DOMAIN s /\ Usable(s[Names[n]]) /\ s' = s /\ last' = 10000 + 10 * n + d
Disturb == DOMAIN s # {} /\ s' = s /\ last' = 20000
Next == MakeOne \/ Ask \/ Disturb
Emit == PrintT(<<"E", TLCFP(s), last', TLCFP(s')>>)
View == s
IsNum(v) == v.k = "num"
(* every match of the menu gets to be the one called A *)
Inv == \A n \in DOMAIN s \cap {"A"} : LET m == s[n] IN Good(m) /\ (Usable(m) =>
    \A d \in {1, 2} :
      LET in  == {x \in Qs : ~Outside(Own(m, d), x) /\ ~Less(Cum(m, d, x), Low(Other(m, d))) /\ ~Less(High(Other(m, d)), Cum(m, d, x))}
          wide == {x \in in : FromCat(Own(m, d)) \/ (x >= Own(m, d).a /\ x <= Own(m, d).b)}
      IN
      (* higher values go with higher ones, or with lower ones in reverse order *)
      /\ \A x, y \in in : x < y => LET u == Matched(m, d, x).r
                                       v == Matched(m, d, y).r
                                   IN  IF m.rev THEN ~Less(u, v) ELSE ~Less(v, u)
      (* equal fractions of the objects lie on the same side of matched values *)
      /\ \A x \in wide : LET v == Matched(m, d, x).r IN v.d = 1 =>
             ~Less(Cum(m, d, x), BelowEnd(Other(m, d), v.n, 1)) /\ ~Less(BelowEnd(Other(m, d), v.n, 2), Cum(m, d, x))
      (* there and back *)
      /\ \A x \in wide : LET v == Matched(m, d, x).r IN v.d = 1 /\ ~Tied(Other(m, d), v.n) => Matched(m, 3 - d, v.n) = Num(I(x))
      (* nothing but fillers from outside the values matched *)
      /\ \A x \in Qs : ~Outside(Own(m, d), x) /\ x \notin in =>
             Matched(m, d, x) \in {FillLo(Other(m, d)), FillHi(Other(m, d))})
==============================================================================
