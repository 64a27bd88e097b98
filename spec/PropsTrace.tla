----------------------------- MODULE PropsTrace -----------------------------
EXTENDS Props, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES cur,    \* what the subject currently is: <<>> or <<key, meaning>>
          seen,   \* set of <<key, meaning, digest>>
          ti, l
tvars == <<cur, seen, ti, l>>
Ev == Traces[ti].ev[l]
TInit == ti \in 1..Len(Traces) /\ l = 1 /\ cur = <<>> /\ seen = {} /\ TLCSet(ti, 0)

Prepare == Ev.op \in {"Load", "Mod"} /\ "g0" \notin DOMAIN Ev /\ Ev.out = "ok" /\ UNCHANGED <<cur, seen>>
Load == /\ Ev.op = "Load" /\ "g0" \in DOMAIN Ev
        /\ LET ok == Accepted(Ev.key, Ev.g0) IN
           /\ Open(Ev.key, Ev.g0) \/ ((Ev.out = "ok") <=> ok)
           /\ cur' = IF Ev.out = "ok" THEN <<Ev.key, Meaning(Ev.key, Ev.g0)>> ELSE cur
        /\ seen' = seen
Render == Ev.op = "Render" /\ Ev.out = "ok" /\ cur # <<>> /\ UNCHANGED <<cur, seen>>
Probe == /\ Ev.op = "Probe"
         /\ (Ev.obs[1].d = "none") <=> (cur = <<>>)
         /\ IF cur = <<>> THEN seen' = seen
            ELSE LET d == Ev.obs[1].d IN
                 /\ \A x \in seen : x[1] = cur[1] =>
                      /\ (x[2] = cur[2]) => (x[3] = d)
                      /\ (MustDiffer(cur[1], cur[2], x[2]) \/ MustDiffer(cur[1], x[2], cur[2])) => (x[3] # d)
                 /\ seen' = seen \cup {<<cur[1], cur[2], d>>}
         /\ UNCHANGED cur
TNext == /\ l <= Len(Traces[ti].ev)
         /\ (Prepare \/ Load \/ Render \/ Probe)
         /\ l' = l + 1 /\ ti' = ti
TraceSpec == TInit /\ [][TNext]_tvars
TraceProgress == TLCSet(ti, IF TLCGet(ti) > l THEN TLCGet(ti) ELSE l)
Rejected == SelectSeq([k \in 1..Len(Traces) |-> <<k, TLCGet(k)>>], LAMBDA x : x[2] # Len(Traces[x[1]].ev) + 1)
TraceAccepted == /\ PrintT("@@REJ " \o ToJson(Rejected))
                 /\ PrintT("@@DONE " \o ToString(Len(Traces) - Len(Rejected)) \o " OF " \o ToString(Len(Traces)))
=============================================================================
