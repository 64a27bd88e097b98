------------------------------ MODULE Geometry ------------------------------
(* Exact geometry of triangles, rays and boxes over the integers.  A ray is o + t*d with
   integer o and d; parameters t are rationals [n, d] with d > 0.  Affine maps are 3x4
   integer matrices given by rows <<a, b, c, t>>.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Sub3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>

\* ---------------------------------------------------------------- affine maps
Id34 == << <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>> >>
Map(M, p) == [i \in 1..3 |-> M[i][1] * p[1] + M[i][2] * p[2] + M[i][3] * p[3] + M[i][4]]
Compose(A, B) == [i \in 1..3 |-> [j \in 1..4 |-> A[i][1] * B[1][j] + A[i][2] * B[2][j] + A[i][3] * B[3][j] + (IF j = 4 THEN A[i][4] ELSE 0)]]
Row(M, i) == <<M[i][1], M[i][2], M[i][3]>>
Cof(M) == <<Cross(Row(M, 2), Row(M, 3)), Cross(Row(M, 3), Row(M, 1)), Cross(Row(M, 1), Row(M, 2))>>
DetM(M) == Dot(Row(M, 1), Cof(M)[1])

\* ------------------------------------------------------------------ triangles
\* tri: [p |-> <<p1, p2, p3>>].  Intersection with the ray: det = 0 when parallel or degenerate;
\* otherwise the parameter n/det and the barycentric coordinates u/det, v/det, made positive.
Meet(P, r) ==
    LET e1 == TLCEval(Sub3(P[2], P[1]))  e2 == TLCEval(Sub3(P[3], P[1]))
        p == TLCEval(Cross(r.d, e2))  tv == TLCEval(Sub3(r.o, P[1]))  q == TLCEval(Cross(tv, e1))
        det == Dot(e1, p)  s == Sgn(det)
    IN [det |-> Abs(det), u |-> s * Dot(tv, p), v |-> s * Dot(r.d, q), n |-> s * Dot(e2, q)]
\* parameter against a limit given in eighths
LtE(m, e) == m.n * 8 < e * m.det
EqE(m, e) == m.n * 8 = e * m.det
InRange(m, r) == ~LtE(m, r.t0) /\ (r.t1 = "inf" \/ LtE(m, r.t1n) \/ EqE(m, r.t1n))
\* on the triangle, the boundary and the ends of the range included: an implementation may report it
May(m, r) == m.det # 0 /\ m.u >= 0 /\ m.v >= 0 /\ m.u + m.v <= m.det /\ InRange(m, r)
\* properly inside the triangle and the range: it has to be found
Must(m, r) == May(m, r) /\ m.u > 0 /\ m.v > 0 /\ m.u + m.v < m.det /\ ~EqE(m, r.t0) /\ (r.t1 = "inf" \/ ~EqE(m, r.t1n))
Nearer(a, b) == a.n * b.det < b.n * a.det

\* ------------------------------------------------- comparison with observations
S == 4096                              \* observations are rounded to 1/S
Close(x, n, d) == Abs(x * d - S * n) <= d            \* x/S = n/d up to rounding
CloseV(x, n, d) == \A i \in DOMAIN n : Close(x[i], n[i], d)
\* observed unit vector g (scaled by S) has the direction of the integer vector N
Along(g, N) == /\ \A i \in 1..3 : \A j \in 1..3 : Abs(g[i] * N[j] - g[j] * N[i]) <= Abs(N[i]) + Abs(N[j]) + 1
               /\ \E i \in 1..3 : g[i] * N[i] > 0
               /\ Abs(Dot(g, g) - S * S) <= 4 * S

\* ----------------------------------------------------------------------- boxes
\* t-range of the ray within the closed box, intersected with [t0, t1]; rationals as [n, d]
Rat(n, d) == IF d < 0 THEN [n |-> -n, d |-> -d] ELSE [n |-> n, d |-> d]
RLt(a, b) == a.n * b.d < b.n * a.d
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(b, a) THEN b ELSE a
Axis(b, r, i) == IF r.d[i] = 0 THEN [out |-> r.o[i] < b.lo[i] \/ r.o[i] > b.hi[i], edge |-> r.o[i] = b.lo[i] \/ r.o[i] = b.hi[i], free |-> TRUE, a |-> Rat(0, 1), z |-> Rat(0, 1)]
                 ELSE LET x == Rat(b.lo[i] - r.o[i], r.d[i])  y == Rat(b.hi[i] - r.o[i], r.d[i])
                      IN [out |-> FALSE, edge |-> FALSE, free |-> FALSE, a |-> RMin(x, y), z |-> RMax(x, y)]
BoxRange(b, r) ==
    LET ax == [i \in 1..3 |-> Axis(b, r, i)]
        t0 == Rat(r.t0, 8)  t1 == Rat(r.t1n, 8)
        lo == [i \in 0..3 |-> 0]
        a1 == IF ax[1].free THEN t0 ELSE RMax(t0, ax[1].a)  a2 == IF ax[2].free THEN a1 ELSE RMax(a1, ax[2].a)  a3 == IF ax[3].free THEN a2 ELSE RMax(a2, ax[3].a)
        z1 == IF ax[1].free THEN t1 ELSE RMin(t1, ax[1].z)  z2 == IF ax[2].free THEN z1 ELSE RMin(z1, ax[2].z)  z3 == IF ax[3].free THEN z2 ELSE RMin(z2, ax[3].z)
    IN [out |-> (\E i \in 1..3 : ax[i].out) \/ RLt(z3, a3), touch |-> (\E i \in 1..3 : ax[i].edge) \/ (~RLt(z3, a3) /\ ~RLt(a3, z3)), a |-> a3, z |-> z3]
=============================================================================
