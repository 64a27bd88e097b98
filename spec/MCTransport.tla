----------------------------- MODULE MCTransport -----------------------------
(* Estimators on a discrete scene: every point scatters to every other one with given     *)
(* shares.  Expected values of the estimators, built up vertex by vertex from their local *)
(* rules, against the sum over all paths.                                                 *)
EXTENDS Transport
CONSTANTS N, M, D, W, K
Points == 1..N
(* ---- rational numbers ---- *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Red(n, d) == IF n = 0 THEN <<0, 1>> ELSE LET g == Gcd(n, d) IN <<n \div g, d \div g>>
Zero == <<0, 1>>
R(n, d) == Red(n, d)
Add(a, b) == Red(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
Times(a, b) == LET x == Red(a[1], b[2]) y == Red(b[1], a[2]) IN <<x[1] * y[1], x[2] * y[2]>>
Inv(a) == <<a[2], a[1]>>
RECURSIVE SumUp(_, _)
SumUp(f, S) == IF S = {} THEN Zero ELSE LET x == CHOOSE x \in S : TRUE IN Add(f[x], SumUp(f, S \ {x}))
Total(f) == SumUp(f, Points)
(* ---- the scene: shares f/M, reflectances a/D, emission e, choice of lights w/W ---- *)
Rows == {r \in [Points -> 0..M] : LET RECURSIVE T(_) T(k) == IF k = 0 THEN 0 ELSE r[k] + T(k - 1) IN T(N) = M}
Picks == {r \in [Points -> 0..W] : LET RECURSIVE T(_) T(k) == IF k = 0 THEN 0 ELSE r[k] + T(k - 1) IN T(N) = W}
VARIABLES f, a, e, w, n, exact, naive, nee, mis, rr, bi
vars == <<f, a, e, w, n, exact, naive, nee, mis, rr, bi>>
F(x, y) == R(f[x][y], M)
A(x) == R(a[x], D)
E(x) == R(e[x], 1)
P(y) == R(w[y], W)
Direct(x, y) == Times(A(x), Times(F(x, y), E(y)))
\* one more bounce: the part of a path tracer after the light that is hit directly
Walk(x, g) == Times(A(x), Total([y \in Points |-> Times(F(x, y), g[y])]))
ByLight(x, y) == IF w[y] = 0 THEN Zero ELSE Times(P(y), Times(Direct(x, y), Inv(P(y))))
Share(p, q) == Times(p, Inv(Add(p, q)))
\* balance between choosing y as a light and scattering to y
Both(x, y) == Add(IF w[y] = 0 THEN Zero ELSE Times(ByLight(x, y), Share(P(y), F(x, y))),
                  IF f[x][y] = 0 THEN Zero ELSE Times(Direct(x, y), Share(F(x, y), P(y))))
Half == R(1, 2)
Covered == \A y \in Points : e[y] > 0 => w[y] > 0
Init == /\ f \in [Points -> Rows] /\ a \in [Points -> 0..D] /\ e \in [Points -> {0, 1, 3}] /\ w \in Picks /\ Covered
        /\ n = 2
        /\ exact = [x \in Points |-> E(x)] /\ naive = exact /\ rr = exact
        /\ nee = [x \in Points |-> Zero] /\ mis = nee
        /\ bi = [x \in Points |-> <<E(x)>>]
\* paths with one more vertex
Next == /\ n < K /\ n' = n + 1
        /\ exact' = [x \in Points |-> Add(E(x), Total([y \in Points |-> Times(Times(A(x), F(x, y)), exact[y])]))]
        /\ naive' = [x \in Points |-> Add(E(x), Walk(x, naive))]
        \* half of the walks are ended, the others count twice
        /\ rr' = [x \in Points |-> Add(E(x), Times(Half, Times(Inv(Half), Walk(x, rr))))]
        /\ nee' = [x \in Points |-> Add(Total([y \in Points |-> ByLight(x, y)]), Walk(x, nee))]
        /\ mis' = [x \in Points |-> Add(Total([y \in Points |-> Both(x, y)]), Walk(x, mis))]
        \* the paths of each number of vertices on their own
        /\ bi' = [x \in Points |-> <<E(x)>> \o [k \in 1..(n - 1) |-> Walk(x, [y \in Points |-> bi[y][k]])]]
        /\ UNCHANGED <<f, a, e, w>>
Spec == Init /\ [][Next]_vars
RECURSIVE Fold(_, _)
Fold(s, k) == IF k = 0 THEN Zero ELSE Add(s[k], Fold(s, k - 1))
Unbiased == \A x \in Points : /\ naive[x] = exact[x] /\ rr[x] = exact[x]
                              /\ Add(E(x), nee[x]) = exact[x] /\ Add(E(x), mis[x]) = exact[x]
                              /\ Fold(bi[x], n - 1) = exact[x]
\* a uniform scene is a furnace
Uniform == (\A x, y \in Points : a[x] = a[y] /\ e[x] = e[y]) =>
    \A x \in Points : Near((100000 * exact[x][1]) \div exact[x][2], Furnace(100000 * e[x], (1000 * a[x]) \div D, 2, n), 1500)
=============================================================================
