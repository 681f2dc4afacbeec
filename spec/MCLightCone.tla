----------------------------- MODULE MCLightCone -----------------------------
(* Why stepping a box along the line of sight works. In the plane, with a     *)
(* line of sight (3,4)/5: the images of a halo in a strip of half-width W     *)
(* around the line, from distance D0 to D1 (the view), are found exactly once *)
(* by putting one period of the box at successive places along the line,      *)
(* B.b short of each step, provided the strip's step fits in it.              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS B, D0S, LENS, STEPS, WS, BUFS
VARIABLES h, d0, len, n, w, b
vars == <<h, d0, len, n, w, b>>
Along(q) == 3 * q[1] + 4 * q[2]      \* 5 x distance along the line
Perp(q) == 4 * q[1] - 3 * q[2]       \* 5 x distance from the line
Abs(x) == IF x < 0 THEN 0 - x ELSE x
step == (len \div n)                  \* in units of 5 along the line
(* the strip of one step, seen from the corner of the window, fits in the box *)
Fits == /\ 3 * 25 * b >= 4 * 5 * w /\ 4 * 25 * b >= 3 * 5 * w
        /\ 3 * 25 * (b + step) + 4 * 5 * w < 25 * B
        /\ 4 * 25 * (b + step) + 3 * 5 * w < 25 * B
Init == /\ h \in (0..B-1) \X (0..B-1) /\ d0 \in D0S /\ len \in LENS /\ n \in STEPS /\ w \in WS /\ b \in BUFS
        /\ len % n = 0
Next == UNCHANGED vars
KS == -2..((d0 + len) \div (B \div 5) + 2)
Images == {<<h[1] + B * k[1], h[2] + B * k[2]>> : k \in KS \X KS}
InView(q, lo, hi) == Abs(Perp(q)) <= 5 * w /\ 25 * lo <= Along(q) /\ Along(q) < 25 * hi
View == {q \in Images : InView(q, d0, d0 + len)}
(* the algorithm: step j puts the corner at (d0 + j step - b) along the line *)
Corner(j) == <<3 * (d0 + j * step - b), 4 * (d0 + j * step - b)>>
Seen(j) == LET c == Corner(j)
               q == <<c[1] + ((h[1] - c[1]) % B), c[2] + ((h[2] - c[2]) % B)>>
           IN IF InView(q, d0 + j * step, d0 + (j + 1) * step) THEN {q} ELSE {}
Exact == Fits => /\ UNION {Seen(j) : j \in 0..n-1} = View
                 /\ \A i, j \in 0..n-1 : i # j => Seen(i) \cap Seen(j) = {}
(* and without the room it does not: the condition is not vacuous *)
Vacuous == ~(Fits /\ View # {})
==============================================================================
