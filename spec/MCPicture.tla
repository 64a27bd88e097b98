----------------------------- MODULE MCPicture -----------------------------
(* All small pictures and scenes: textures repeat, their texels have equal shares, flipping *)
(* mirrors; the environment covers every column and row; the nearest rectangle hides others. *)
EXTENDS Picture, Json, TLC, FiniteSets
CONSTANTS MaxW, MaxH, D, N
VARIABLES p, qs, done
vars == <<p, qs, done>>
Pic(w, h, c, f) == [w |-> w, h |-> h, c |-> c, flip |-> f, px |-> [i \in 1..(w * h) |-> [k \in 1..c |-> (10 * i + k) % 256]]]
Pics == {Pic(w, h, c, f) : w \in 1..MaxW, h \in 1..MaxH, c \in 1..4, f \in BOOLEAN}
Rect(x, y, s, z, c) == [x0 |-> x, x1 |-> x + s, y0 |-> y, y1 |-> y + s, z |-> z, color |-> <<c, c + 1, c + 2>>, pic |-> <<>>]
Rects == {Rect(x, y, 2, z, 7) : x \in {-2, 0}, y \in {-1, 1}, z \in 0..1}
Init == p \in Pics /\ qs = <<>> /\ done = FALSE
Next == \/ ~done /\ Len(qs) < 2 /\ \E r \in Rects : (\A k \in 1..Len(qs) : qs[k].z # r.z) /\ qs' = Append(qs, [r EXCEPT !.color = <<20 * Len(qs), 1, 2>>]) /\ UNCHANGED <<p, done>>
        \/ ~done /\ done' = TRUE /\ UNCHANGED <<p, qs>>
Spec == Init /\ [][Next]_vars
Other == [p EXCEPT !.flip = ~@]
Periodic == \A a \in 0..(D - 1), b \in 0..(D - 1) : Texel(p, a, b, D) = Texel(p, a + D, b - D, D) /\ Texel(p, a, b, D) = Texel(p, a - 3 * D, b + 2 * D, D)
\* when the texels divide the lattice, each has its share
Fair == (D % p.w = 0 /\ D % p.h = 0) => \A x \in 0..(p.w - 1), y \in 0..(p.h - 1) :
            Cardinality({ab \in (0..(D - 1)) \X (0..(D - 1)) : Cell(ab[1], D, p.w) = x /\ Cell(ab[2], D, p.h) = y}) = (D * D) \div (p.w * p.h)
Mirror == \A a \in 0..(D - 1), b \in 0..(D - 1) : Texel(p, a, 2 * b + 1, 2 * D) = Texel(Other, a, 2 * D - (2 * b + 1), 2 * D) \/ (((2 * b + 1) * p.h) % (2 * D) = 0)
\* the scene looks the same from a place moved with it, and nothing hides what is nearer
Moved == [k \in 1..Len(qs) |-> [qs[k] EXCEPT !.x0 = @ + 3, !.x1 = @ + 3, !.y0 = @ - 1, !.y1 = @ - 1]]
Same == \A i \in 0..(N - 1), j \in 0..(N - 1) : Hits(qs, N, i, j, 3, <<0, 0>>) = Hits(Moved, N, i, j, 3, <<3, -1>>)
Front == \A i \in 0..(N - 1), j \in 0..(N - 1) : Hits(qs, N, i, j, 3, <<0, 0>>) # {} =>
            \A m \in Hits(qs, N, i, j, 3, <<0, 0>>) : qs[m].z <= qs[Nearest(qs, N, i, j, 3, <<0, 0>>)].z
Emit == done => PrintT("@@" \o ToJson([p |-> p, qs |-> qs]))
=============================================================================
