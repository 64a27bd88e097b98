----------------------------- MODULE ReproTrace -----------------------------
EXTENDS Repro, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, known, fresh
tvars == <<ti, l, known, fresh>>
Ev == Traces[ti].ev[l]
TInit == ti \in 1..Len(Traces) /\ l = 1 /\ TLCSet(ti, 0) /\ known = <<>> /\ fresh = {}
Is(o) == Ev.op = o
\* several threads: which thread renders what is not determined, so neither is the image
Render == /\ Is("Render") /\ Ev.ret = "ok" /\ Ev.finite
          /\ IF Ev.fixed THEN /\ (<<Ev.cfg, 0>> \in DOMAIN known => known[<<Ev.cfg, 0>>] = Ev.im)
                              /\ known' = Learn(known, Ev.cfg, 0, Ev.im) /\ fresh' = fresh
             \* a few samples may all miss
             ELSE IF Ev.blank THEN ((<<Ev.cfg, Ev.seed>> \in DOMAIN known /\ Ev.threads = 1 /\ Ev.seed # 0) => known[<<Ev.cfg, Ev.seed>>] = Ev.im) = TRUE /\ UNCHANGED <<known, fresh>>
             ELSE IF Ev.threads > 1 THEN UNCHANGED <<known, fresh>>
             ELSE IF Ev.seed = 0 THEN FitsFresh(known, fresh, Ev.cfg, Ev.im) /\ fresh' = fresh \cup {<<Ev.cfg, Ev.im>>} /\ known' = known
             ELSE /\ Fits(known, fresh, Ev.cfg, Ev.seed, Ev.im)
                  /\ known' = Learn(known, Ev.cfg, Ev.seed, Ev.im) /\ fresh' = fresh
\* the noise of an image does not depend on how many threads share the work
Spread == /\ Is("Spread") /\ Ev.ret = "ok" /\ Ev.many * 100 <= Ev.tol * Ev.one /\ Ev.one * 100 <= Ev.tol * Ev.many
          /\ UNCHANGED <<known, fresh>>
Other == Is("Other") /\ Ev.ret = "ok" /\ UNCHANGED <<known, fresh>>
TNext == /\ l <= Len(Traces[ti].ev)
         /\ (Render \/ Spread \/ Other)
         /\ l' = l + 1 /\ ti' = ti
TraceSpec == TInit /\ [][TNext]_tvars
TraceProgress == TLCSet(ti, IF TLCGet(ti) > l THEN TLCGet(ti) ELSE l)
Rejected == SelectSeq([k \in 1..Len(Traces) |-> <<k, TLCGet(k)>>], LAMBDA x : x[2] # Len(Traces[x[1]].ev) + 1)
TraceAccepted == /\ PrintT("@@REJ " \o ToJson(Rejected))
                 /\ PrintT("@@DONE " \o ToString(Len(Traces) - Len(Rejected)) \o " OF " \o ToString(Len(Traces)))
=============================================================================
