------------------------------ MODULE Sampling ------------------------------
(* Sampling: a routine draws outcomes, reports for each the weight (value over density), *)
(* and offers the density and the value it stands for.  Numbers are fixed-point integers. *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, t) == Abs(a - b) <= t
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
Sum(s) == SumTo(s, Len(s))
Bad == -999999999
\* weight times density is the value; the density of what was drawn is positive
Fits(t) == /\ t[1] # Bad /\ t[2] > 0 /\ t[3] # Bad
           /\ Near(t[1] * t[2], t[3], Abs(t[1]) + Abs(t[2]) + 2)
Equal(q, tol) == q[1] # Bad /\ q[2] # Bad /\ Near(q[1], q[2], tol)
(* ---- a measurement: draws tallied in bins, then compared with the integrals over the bins ---- *)
NoMeasure == [open |-> FALSE]
Begin(e) == [open |-> TRUE, specular |-> e.specular, bins |-> e.bins, n |-> 0, c |-> [b \in 1..e.bins |-> 0], rej |-> 0]
Tally(m, e) == [m EXCEPT !.n = @ + e.n, !.c = [b \in 1..m.bins |-> @[b] + e.c[b]], !.rej = @ + e.rej]
\* densities in units of 10^-5; weights and values relative to the total value
BinTol == 700
MeanTol == 1200
Distributed(m, p) == LET k == 100000 \div m.n IN
    /\ \A b \in 1..m.bins : p[b] >= 0 /\ Near(k * m.c[b], p[b], BinTol)
    /\ Near(Sum(p) + k * m.rej, 100000, BinTol)
Unbiased(m, w, f) == \A b \in 1..m.bins : \A ch \in 1..3 : w[b][ch] # Bad /\ Near(w[b][ch], f[b][ch], MeanTol)
(* ---- choices ---- *)
\* the entry the number u (of k equally spaced ones, at the middles) belongs to, for weights w
Owner(w, k, j) == CHOOSE i \in 1..Len(w) : /\ SumTo(w, i - 1) * 2 * k < (2 * j + 1) * Sum(w)
                                           /\ (2 * j + 1) * Sum(w) < SumTo(w, i) * 2 * k
Selected(e) == /\ e.in /\ e.same /\ Len(e.p) = e.n
               /\ \A i \in 1..e.n : e.p[i] >= 0 /\ Near(e.c[i] * 1000000, e.p[i] * e.k, 2000000) /\ (e.p[i] = 0 => e.c[i] = 0)
               /\ Near(Sum(e.p), 1000000, e.n)
               /\ e.w # <<>> => \A i \in 1..e.n : Near(e.p[i] * Sum(e.w), 1000000 * e.w[i], Sum(e.w) * 2)
(* ---- vectors of components in units of 10^-4 ---- *)
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Cos(a, b) == Dot(a, b) \div 10000
IsUnit(a) == Near(Dot(a, a), 100000000, 60000)
Tang(a, n) == [i \in 1..3 |-> (a[i] * 10000 - Cos(a, n) * n[i]) \div 10000]
Reflects(n, wi, wo) == IsUnit(wo) /\ \A i \in 1..3 : Near(wo[i] + wi[i], (2 * Cos(wi, n) * n[i]) \div 10000, 6)
\* relative index of refraction ni in units of 10^-3, the normal on the outside
Eta(ni, n, wi) == IF Dot(wi, n) > 0 THEN 1000000 \div ni ELSE ni
Refracts(n, wi, wo, ni) == /\ IsUnit(wo)
    /\ IF Cos(wi, n) > 0 THEN Cos(wo, n) < 5 ELSE Cos(wo, n) > -5
    /\ \A i \in 1..3 : Near(Tang(wo, n)[i] * 1000, - Eta(ni, n, wi) * Tang(wi, n)[i], 20000)
\* Schlick's approximation for an index ni > 1, by the cosine on the thinner side; 10^-4
Mul(x, y) == (x * y) \div 10000
Pow5(x) == Mul(Mul(Mul(x, x), Mul(x, x)), x)
R0(ni) == LET r == ((ni - 1000) * 10000) \div (ni + 1000) IN Mul(r, r)
Schlick(ni, cos) == R0(ni) + ((10000 - R0(ni)) * Pow5(10000 - cos)) \div 10000
\* a direction on the denser side whose refraction does not exist: sine times index above one
TIR(ni, n, wi) == LET c == Abs(Cos(wi, n)) IN Cos(wi, n) < 0 /\ ((10000 - (c * c) \div 10000) * ((ni * ni) \div 1000)) \div 1000 > 10010
(* ---- attenuation: 10^4 exp(-k/8) ---- *)
E8 == <<10000,8825,7788,6873,6065,5353,4724,4169,3679,3247,2865,2528,2231,1969,1738,1534,1353,1194,1054,930,821,724,639,564,498,439,388,342,302,266,235,208,183,162,143,126,111,98,87,76,67,59,52,46,41,36,32,28,25,22,19,17,15,13,12,10,9,8,7,6,6,5,4,4,3,3,3,2,2,2,2,1,1,1,1,1,1,1,1,1,0>>
Atten(k) == IF k >= Len(E8) THEN 0 ELSE E8[k + 1]
ASSUME \A i, j \in 0..20 : Near((Atten(i) * Atten(j)) \div 10000, Atten(i + j), 1)
=============================================================================
