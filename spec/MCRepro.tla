------------------------------ MODULE MCRepro ------------------------------
(* Generators of a number of threads; a rendering seeds them, draws from them, and its image *)
(* is what was drawn.  The device that gives fresh seeds never repeats itself.                *)
EXTENDS Repro, TLC, Json
CONSTANTS K, Seeds, Threads, Mutant
VARIABLES gen, dev, known, fresh, ok, hist
vars == <<gen, dev, known, fresh, ok, hist>>
M == 97
Step(x) == (x * 5 + 3) % M
RECURSIVE Draw(_, _)
Draw(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Draw(Step(x), n - 1)
RECURSIVE After(_, _)
After(x, n) == IF n = 0 THEN x ELSE After(Step(x), n - 1)
Init == gen = [t \in 1..Threads |-> 0] /\ dev = 50 /\ known = <<>> /\ fresh = {} /\ ok = TRUE /\ hist = <<>>
\* cfg: the number of samples
Start(seed) == IF Mutant = "keep" /\ gen[1] # 0 THEN gen ELSE [t \in 1..Threads |-> IF Mutant = "same" THEN seed ELSE seed + t - 1]
Render(cfg, seed) == LET g == Start(seed)  im == Draw(g[1], cfg) IN
    /\ ok' = (ok /\ Fits(known, fresh, cfg, seed, im) /\ Cardinality({g[t] : t \in 1..Threads}) = Threads)
    /\ known' = Learn(known, cfg, seed, im)
    /\ gen' = [g EXCEPT ![1] = After(@, cfg)]
    /\ hist' = Append(hist, [op |-> "Render", cfg |-> cfg, seed |-> seed]) /\ UNCHANGED <<dev, fresh>>
Unseeded(cfg) == LET im == Draw(dev, cfg) IN
    /\ ok' = (ok /\ FitsFresh(known, fresh, cfg, im))
    /\ fresh' = fresh \cup {<<cfg, im>>} /\ dev' = dev + 7
    /\ gen' = [gen EXCEPT ![1] = After(dev, cfg)]
    /\ hist' = Append(hist, [op |-> "Render", cfg |-> cfg, seed |-> 0]) /\ known' = known
Next == Len(hist) < K /\ \E cfg \in {2, 3} : (\E seed \in Seeds : Render(cfg, seed)) \/ Unseeded(cfg)
Spec == Init /\ [][Next]_vars
Reproducible == ok
Emit == Len(hist) < K \/ PrintT("@@" \o ToJson(hist))
=============================================================================
