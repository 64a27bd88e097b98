------------------------------- MODULE Repro -------------------------------
(* What a rendering depends on: the scene, the renderer and its seed, and nothing that *)
(* happened before.  Images are compared as a whole.                                    *)
EXTENDS Integers, Sequences, FiniteSets
\* known: images so far, a function from <<configuration, seed>> to the image
Fits(known, fresh, cfg, seed, im) ==
    /\ (<<cfg, seed>> \in DOMAIN known => known[<<cfg, seed>>] = im)
    \* another seed, another image
    /\ \A k \in DOMAIN known : (k[1] = cfg /\ k[2] # seed) => known[k] # im
    /\ <<cfg, im>> \notin fresh
Learn(known, cfg, seed, im) == [k \in DOMAIN known \cup {<<cfg, seed>>} |-> IF k = <<cfg, seed>> THEN im ELSE known[k]]
\* without a seed every image is another one
FitsFresh(known, fresh, cfg, im) == <<cfg, im>> \notin fresh /\ \A k \in DOMAIN known : k[1] = cfg => known[k] # im
=============================================================================
