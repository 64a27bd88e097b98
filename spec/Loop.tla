-------------------------------- MODULE Loop --------------------------------
(* The parallel loop of the framework, the progress it reports, and the render
   schedulers built on it, as their callers see them.

   A loop over n samples hands every index 0..n-1 to the process function exactly
   once, on threads identified by 0..T-1 each working on one sample at a time;
   it returns when no sample is being processed any more, normally when all were
   processed, with one of the exceptions thrown by a callback otherwise.
   Progress values are reported by the thread that called the loop; they never
   decrease, never exceed the samples processed so far, and lag behind by no more
   than the update interval per thread.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Max2(a, b) == IF a > b THEN a ELSE b
NumThreads(cfg, hw) == IF cfg > 0 THEN cfg ELSE Max2(1, hw + cfg)

NewLoop(n, t, ivl) ==
    [n |-> n, t |-> t, ivl |-> ivl, run |-> [k \in 0..t-1 |-> -1], begun |-> {}, done |-> {}, thrown |-> {}, prog |-> 0, seen |-> 0]

Idle(L) == \A k \in DOMAIN L.run : L.run[k] = -1

CanBegin(L, i, k) ==
    /\ i \in 0..L.n-1 /\ i \notin L.begun
    /\ k \in DOMAIN L.run /\ L.run[k] = -1
    /\ L.t = 1 => L.thrown = {}               \* a single thread stops at the first failure
DoBegin(L, i, k) == [L EXCEPT !.begun = @ \cup {i}, !.run[k] = i]

CanEnd(L, i, k) == k \in DOMAIN L.run /\ L.run[k] = i
DoEnd(L, i, k) == [L EXCEPT !.done = @ \cup {i}, !.run[k] = -1,
                            !.seen = IF k = 0 THEN Cardinality(L.done) + 1 ELSE @]
DoThrow(L, i, k, x) == [L EXCEPT !.thrown = @ \cup {x}, !.run[k] = -1]

CanProgress(L, v) ==
    /\ v >= L.prog /\ v <= Cardinality(L.done)
    /\ v >= L.seen - L.t * L.ivl
DoProgress(L, v) == [L EXCEPT !.prog = v]
DoProgressThrow(L, x) == [L EXCEPT !.thrown = @ \cup {x}]

CanReturn(L, out) ==
    /\ Idle(L)
    /\ IF L.thrown = {} THEN out = "ok" /\ L.done = 0..L.n-1 /\ L.begun = L.done
                        ELSE out \in L.thrown

(* ------------------------------------------------------------ progress reporters *)
\* A reporter session: started once, updated in its mode, ended once.
Fresh == [st |-> "none", mode |-> "", total |-> 0, v |-> 0, t |-> 0]
CanPStart(P) == P.st # "open"
DoPStart(m, total) == [st |-> "open", mode |-> m, total |-> total, v |-> 0, t |-> 0]
CanUpdate(P, v) == P.st = "open" /\ P.mode = "samples" /\ v >= P.v /\ v <= P.total
DoUpdate(P, v) == [P EXCEPT !.v = v]
CanUpdateTime(P, t, now) == P.st = "open" /\ P.mode = "time" /\ t >= P.t /\ t <= now
DoUpdateTime(P, t) == [P EXCEPT !.t = t]
CanPEnd(P) == P.st = "open"
DoPEnd(P) == [P EXCEPT !.st = "ended"]

(* -------------------------------------------------------------------- schedulers *)
\* Samples (pixel, sample) of one pass of scheduler s
Pass(s, k) ==
    CASE s.kind = "spp_sample" -> (0..s.npix-1) \X (0..s.spp-1)
      [] s.kind = "spp_time"   -> (0..s.npix-1) \X {k}
      [] s.kind = "spi_sample" -> {0} \X (0..s.spp-1)
      [] s.kind = "spi_time"   -> {0} \X (k*s.per..(k+1)*s.per-1)
PassSize(s) ==
    CASE s.kind = "spp_sample" -> s.npix * s.spp
      [] s.kind = "spp_time"   -> s.npix
      [] s.kind = "spi_sample" -> s.spp
      [] s.kind = "spi_time"   -> s.per
Timed(s) == s.kind \in {"spp_time", "spi_time"}
\* Every sample takes s.d ms of the (virtual) clock; a timed scheduler starts another pass while
\* the time limit is not exceeded.
Again(s, k) == Timed(s) /\ ~((k + 1) * PassSize(s) * s.d > s.limit)
Total(s) == IF Timed(s) THEN s.limit ELSE PassSize(s)
Mode(s) == IF Timed(s) THEN "time" ELSE "samples"
Result(s, k) ==
    CASE s.kind = "spp_sample" -> s.spp
      [] s.kind = "spp_time"   -> k + 1
      [] s.kind = "spi_sample" -> s.spp
      [] s.kind = "spi_time"   -> (k + 1) * s.per
=============================================================================
