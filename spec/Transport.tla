------------------------------ MODULE Transport ------------------------------
(* Light transport: the image of a scene is the sum over all paths of two up to a given *)
(* number of vertices, in whatever way the paths are sampled.  Fixed-point integers.     *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, t) == Abs(a - b) <= t
Max(a, b) == IF a > b THEN a ELSE b
Bad == -999999999
(* ---- closed scenes of one reflectance (10^-3) and one emission: every further bounce ---- *)
(* ---- returns the same share; emission in the unit of the image                        ---- *)
RECURSIVE Power(_, _, _)
Power(le, rho, k) == IF k = 0 THEN le ELSE (Power(le, rho, k - 1) * rho) \div 1000
RECURSIVE Furnace(_, _, _, _)
\* paths of lo up to hi vertices
Furnace(le, rho, lo, hi) == IF hi < lo \/ hi < 2 THEN 0 ELSE Power(le, rho, hi - 2) + Furnace(le, rho, lo, hi - 1)
(* ---- images: mean and standard error of every value ---- *)
Same(m, se, r, rse) == m # Bad /\ r # Bad /\ Near(m, r, 5 * (se + rse) + (3 * Max(Abs(m), Abs(r))) \div 1000 + 3)
Agree(a, b) == Len(a.m) = Len(b.m) /\ \A i \in 1..Len(a.m) : Same(a.m[i], a.se[i], b.m[i], b.se[i])
Exact(m) == [m |-> m, se |-> [i \in 1..Len(m) |-> 0]]
FurnaceImage(law, n, lo, hi) == Exact([i \in 1..n |-> LET c == ((i - 1) % 3) + 1 IN Furnace(law.le[c], law.rho[c], lo, hi)])
\* what is known about the paths of lo to hi vertices from what was seen of others: sums of consecutive ranges
Plus(a, b) == [m |-> [i \in 1..Len(a.m) |-> a.m[i] + b.m[i]], se |-> [i \in 1..Len(a.se) |-> a.se[i] + b.se[i]]]
(* ---- strategies: a path of n vertices, s of them sampled from the light ---- *)
\* v[i]: s - scatters in a single direction, d - without extent, c - can be joined to from elsewhere
Can(v, s) == LET n == Len(v) IN
    IF s = 0 THEN ~v[1].d /\ ~v[1].s
    ELSE IF s = n THEN ~v[n].d /\ ~v[n].s
    ELSE /\ ~v[s].s /\ ~v[s + 1].s
         /\ (s = 1 => v[1].c) /\ (s = n - 1 => v[n].c)
=============================================================================
