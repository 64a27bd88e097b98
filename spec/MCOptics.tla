------------------------------ MODULE MCOptics ------------------------------
(* A path across interfaces between media of indices N (a mirror, a mask, a glass): *)
(* reflection and transmission keep the tangential component index * sine, reversal is possible, *)
(* and the radiance scale picked up on the way in is given back on the way out. *)
EXTENDS Integers, Sequences
CONSTANTS N1, N2, MaxKt, Steps
VARIABLES n, kt, up, scale, last, steps, n0
vars == <<n, kt, up, scale, last, steps, n0>>
Indices == <<N1, N2>>
\* indices of refraction of the two sides: below and above; scale: exponent of (n1/n2)^2 collected
Other(s) == 3 - s
None == [k |-> "none"]
Init == /\ n \in {1, 2} /\ kt \in 0..MaxKt /\ kt < Indices[n] /\ up \in BOOLEAN
        /\ scale = 0 /\ last = None /\ steps = 0 /\ n0 = n
Possible(s) == kt < Indices[s]
Go(k, n2, up2, ds) == /\ steps < Steps /\ steps' = steps + 1
                      /\ last' = [k |-> k, from |-> <<n, up>>, to |-> <<n2, up2>>]
                      /\ n' = n2 /\ up' = up2 /\ scale' = scale + ds /\ kt' = kt /\ n0' = n0
Reflect == Go("reflect", n, ~up, 0)
Pass == Go("pass", n, up, 0)
Refract == Possible(Other(n)) /\ Go("refract", Other(n), up, IF n = 1 THEN 1 ELSE -1)
Next == Reflect \/ Pass \/ Refract
Spec == Init /\ [][Next]_vars
\* the scale depends on where the path is only: whoever comes back has none
ScaleOfPlace == scale = (IF n = n0 THEN 0 ELSE IF n0 = 1 THEN 1 ELSE -1)
\* total internal reflection happens on the dense side only
TotalOnDense == ~Possible(Other(n)) => Indices[n] > Indices[Other(n)]
\* what can be done can be done backwards: reverse the direction, apply the same kind, arrive reversed
Reversible == last # None =>
    CASE last.k = "reflect" -> last.from[1] = last.to[1] /\ last.from[2] = ~last.to[2]
      [] last.k = "pass" -> last.from = last.to
      [] last.k = "refract" -> last.from[2] = last.to[2] /\ last.from[1] = Other(last.to[1]) /\ Possible(last.from[1])
=============================================================================
