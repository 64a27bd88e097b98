------------------------------ MODULE Picture ------------------------------
(* Pictures as textures and environments, and what a ray caster shows of a scene.      *)
(* A picture has W columns and H rows from top to bottom of texels of C channels: gray, *)
(* gray and alpha, color, color and alpha.                                              *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, t) == Abs(a - b) <= t
Min2(a, b) == IF a < b THEN a ELSE b
(* ---- textures ---- *)
\* rows of a flipped texture are counted from below
Row(p, y) == IF p.flip THEN p.h - 1 - y ELSE y
At(p, x, y) == p.px[(Row(p, y) * p.w + x) + 1]
Color(t) == IF Len(t) < 3 THEN <<t[1], t[1], t[1]>> ELSE <<t[1], t[2], t[3]>>
HasAlpha(p) == p.c \in {2, 4}
Alpha(t) == t[Len(t)]
\* the texel of coordinate a / d, repeated in both directions: the unit interval is divided evenly
Cell(a, d, n) == (((a % d) * n) \div d)
Texel(p, a, b, d) == At(p, Cell(a, d, p.w), Cell(b, d, p.h))
(* ---- environments: a direction among the neighbours of the origin in the integer lattice ---- *)
\* azimuth from z towards x in eighths of a turn, angle from y in hundredths of a degree
Azimuth(d) == LET s == <<d[1], d[3]>> IN
    CASE s = <<0, 1>> -> 0 [] s = <<1, 1>> -> 1 [] s = <<1, 0>> -> 2 [] s = <<1, -1>> -> 3
      [] s = <<0, -1>> -> 4 [] s = <<-1, -1>> -> 5 [] s = <<-1, 0>> -> 6 [] s = <<-1, 1>> -> 7 [] OTHER -> 0
Polar(d) == LET k == Abs(d[1]) + Abs(d[3]) IN
    CASE k = 0 -> (IF d[2] > 0 THEN 0 ELSE 18000)
      [] d[2] = 0 -> 9000
      [] k = 1 -> (IF d[2] > 0 THEN 4500 ELSE 13500)
      [] OTHER -> (IF d[2] > 0 THEN 5474 ELSE 12526)
\* the map is turned by rot degrees and goes from up to down
EnvCell(p, rot, d) == <<Cell(45 * Azimuth(d) - rot, 360, p.w), Min2((Polar(d) * p.h) \div 18000, p.h - 1)>>
EnvTexel(p, rot, d) == LET c == EnvCell(p, rot, d) IN At(p, c[1], c[2])
\* at the poles any column will do
Pole(d) == d[1] = 0 /\ d[3] = 0
EnvOk(p, rot, d, seen) == IF Pole(d) THEN \E x \in 0..(p.w - 1) : Color(At(p, x, EnvCell(p, rot, d)[2])) = seen ELSE Color(EnvTexel(p, rot, d)) = seen
(* ---- ray casting: the camera looks down from height z at rectangles [x0, x1] x [y0, y1] at heights below ---- *)
\* pixel (i, j) of n by n looks along (2i + 1 - n, 2j + 1 - n, -n)
Reach(n, i, z, k) == (z - k) * (2 * i + 1 - n)      \* n times the offset at height k
Hit(q, n, i, j, z, o) == /\ q.z < z
                         /\ (n * (q.x0 - o[1]) < Reach(n, i, z, q.z)) /\ (Reach(n, i, z, q.z) < n * (q.x1 - o[1]))
                         /\ (n * (q.y0 - o[2]) < Reach(n, j, z, q.z)) /\ (Reach(n, j, z, q.z) < n * (q.y1 - o[2]))
Hits(qs, n, i, j, z, o) == {k \in 1..Len(qs) : Hit(qs[k], n, i, j, z, o)}
Nearest(qs, n, i, j, z, o) == CHOOSE k \in Hits(qs, n, i, j, z, o) : \A m \in Hits(qs, n, i, j, z, o) : qs[m].z <= qs[k].z
\* the color of a rectangle where the ray meets it; a picture is repeated every unit
Skin(q, n, i, j, z, o) == IF q.pic = <<>> THEN q.color
                          ELSE Color(Texel(q.pic[1], Reach(n, i, z, q.z) + n * o[1], Reach(n, j, z, q.z) + n * o[2], n))
(* ---- shading by the angle to the normal: v = c (1/5 + 4/5 cos), cos = n / |(2i+1-n, 2j+1-n, n)| ---- *)
Sq(x) == x * x
Len2(n, i, j) == Sq(2 * i + 1 - n) + Sq(2 * j + 1 - n) + Sq(n)
RECURSIVE Root(_, _, _)
Root(x, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= x THEN Root(x, m, hi) ELSE Root(x, lo, m - 1)
\* n / root(l2) in thousandths
Cos(n, i, j) == (n * 100000) \div Root(Len2(n, i, j) * 10000, 1, 40000)
Shade(c, n, i, j) == (c * (200 + (8 * Cos(n, i, j)) \div 10)) \div 1000
=============================================================================
