------------------------------ MODULE MCCamera ------------------------------
(* A pinhole camera on the integer lattice: orientations by axes, an even raster, *)
(* directions as integer vectors. *)
EXTENDS Sampling, TLC, Json
CONSTANTS K, HalfHeight, HalfWidth
VARIABLES view, up, at, stage
vars == <<view, up, at, stage>>
Axes == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<-1, 0, 0>>, <<0, -1, 0>>, <<0, 0, -1>>}
Right == Cross(view, up)
Top == Cross(Right, view)
Add3(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Scl(s, a) == <<s * a[1], s * a[2], s * a[3]>>
\* the direction through raster point (i/K, j/K): HalfWidth and HalfHeight at unit distance
Dir(i, j) == Add3(Scl(K, view), Add3(Scl(HalfWidth * (2 * i - K), Right), Scl(HalfHeight * (2 * j - K), Top)))
\* the raster point of a direction, if it is in the view: cleared of denominators
InView(d) == /\ Dot(d, view) > 0
             /\ Abs(Dot(d, Right)) <= HalfWidth * Dot(d, view) /\ Abs(Dot(d, Top)) <= HalfHeight * Dot(d, view)
IsAt(d, i, j) == /\ Dot(d, Right) * K = HalfWidth * (2 * i - K) * Dot(d, view)
                 /\ Dot(d, Top) * K = HalfHeight * (2 * j - K) * Dot(d, view)
Init == view \in Axes /\ up \in Axes /\ Dot(view, up) = 0 /\ at = <<0, 0>> /\ stage = "new"
Walk == \/ at[1] < K /\ at' = <<at[1] + 1, at[2]>>
        \/ at[2] < K /\ at' = <<at[1], at[2] + 1>>
Next == Walk /\ stage' = "walk" /\ UNCHANGED <<view, up>>
Spec == Init /\ [][Next]_vars
RoundTrip == LET d == Dir(at[1], at[2]) IN InView(d) /\ \A i, j \in 0..K : IsAt(d, i, j) <=> <<i, j>> = at
Outside == \A i, j \in {-1, 0, K, K + 1} : InView(Dir(i, j)) <=> (i \in 0..K /\ j \in 0..K)
Behind == ~InView(Scl(-1, Dir(at[1], at[2])))
Oriented == /\ Top = up
            /\ Dot(Dir(K, at[2]), Right) > 0 /\ Dot(Dir(0, at[2]), Right) < 0
            /\ Dot(Dir(at[1], K), up) > 0 /\ Dot(Dir(at[1], 0), up) < 0
\* a step to the right on the raster is a step to the right of the view, and changes nothing else
Steps == [][LET d == Dir(at[1], at[2]) e == Dir(at'[1], at'[2]) IN
            IF at'[1] > at[1] THEN Dot(e, Right) > Dot(d, Right) /\ Dot(e, Top) = Dot(d, Top)
            ELSE Dot(e, Top) > Dot(d, Top) /\ Dot(e, Right) = Dot(d, Right)]_vars
Emit == stage = "new" => PrintT("@@" \o ToJson([view |-> view, up |-> up]))
=============================================================================
