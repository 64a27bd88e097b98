------------------------------ MODULE ZooTrace ------------------------------
(* Trace validation for Zoo: components with the same closure behave the same, *)
(* in whatever way the closure came about.                                      *)
EXTENDS Zoo, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES seen,   \* set of <<closure, digest>> observed so far
          ti, l
tvars == <<rec, files, seen, ti, l>>
Ev == Traces[ti].ev[l]

TInit == ti \in 1..Len(Traces) /\ l = 1 /\ rec = <<>> /\ files = <<>> /\ seen = {} /\ TLCSet(ti, 0)

Ops == {"Load", "Mod", "Render", "Save", "LoadSer", "SaveState", "LoadState", "Reset"}
Step == /\ Ev.op \in Ops
        /\ LET x == Effect(Ev) IN Ev.out = x.out /\ rec' = x.rec /\ files' = x.files
        /\ seen' = seen

Probe == /\ Ev.op = "Probe"
         /\ \A j \in 1..Len(Ev.obs) : (Ev.obs[j].d = "none") <=> (Ev.obs[j].p \notin DOMAIN rec)
         /\ LET now == {<<Closure(rec, Ev.obs[j].p), Ev.obs[j].d>> : j \in {i \in 1..Len(Ev.obs) : Ev.obs[i].p \in DOMAIN rec}}
                all == seen \cup now
            IN /\ Cardinality({x[1] : x \in all}) = Cardinality(all)
               /\ seen' = all
         /\ UNCHANGED <<rec, files>>

TNext == /\ l <= Len(Traces[ti].ev)
         /\ (Step \/ Probe)
         /\ l' = l + 1 /\ ti' = ti
TraceSpec == TInit /\ [][TNext]_tvars
TraceProgress == TLCSet(ti, IF TLCGet(ti) > l THEN TLCGet(ti) ELSE l)
Rejected == SelectSeq([k \in 1..Len(Traces) |-> <<k, TLCGet(k)>>], LAMBDA x : x[2] # Len(Traces[x[1]].ev) + 1)
TraceAccepted == /\ PrintT("@@REJ " \o ToJson(Rejected))
                 /\ PrintT("@@DONE " \o ToString(Len(Traces) - Len(Rejected)) \o " OF " \o ToString(Len(Traces)))
=============================================================================
