---------------------------- MODULE RegistryTrace ----------------------------
EXTENDS Registry, Json, IOUtils, SequencesExt
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, st, rel
tvars == <<ti, l, st, rel>>
Ev == Traces[ti].ev[l]
RangeOf(s) == {s[j] : j \in 1..Len(s)}
TInit == ti \in 1..Len(Traces) /\ l = 1 /\ TLCSet(ti, 0) /\ st = Empty /\ rel = 0
Step == /\ Ev.op \in {"Reg", "Unreg", "Create", "Destroy", "Load", "Unload", "LoadDir", "UnloadAll"}
        /\ LET x == Effect(st, Ev) IN
           /\ Ev.out = x.out /\ st' = x.st
           \* the registered keys (each listed once), beside the built-in ones, which never change
           /\ RangeOf(Ev.keys) = DOMAIN x.st.impl /\ Len(Ev.keys) = Cardinality(DOMAIN x.st.impl)
           /\ Ev.builtin
           \* every name creates what it is registered for, under its real key
           /\ \A j \in 1..Len(Ev.probe) : LET r == Resolve(x.st, Ev.probe[j].name) IN
                /\ Ev.probe[j].ok = r.ok
                /\ r.ok => Ev.probe[j].key = r.key /\ (r.v # -1 => Ev.probe[j].v = r.v) /\ Ev.probe[j].released = r.v
           \* an instance is released, once, by the implementation that created it
           /\ Ev.op = "Create" /\ x.out = "ok" => Ev.key = x.st.live[Ev.id].key
           /\ Ev.op = "Destroy" => Ev.released = st.live[Ev.id].v
        /\ rel' = rel
TNext == l <= Len(Traces[ti].ev) /\ Step /\ l' = l + 1 /\ ti' = ti
TraceSpec == TInit /\ [][TNext]_tvars
TraceProgress == TLCSet(ti, IF TLCGet(ti) > l THEN TLCGet(ti) ELSE l)
Rejected == SelectSeq([k \in 1..Len(Traces) |-> <<k, TLCGet(k)>>], LAMBDA x : x[2] # Len(Traces[x[1]].ev) + 1)
TraceAccepted == /\ PrintT("@@REJ " \o ToJson(Rejected))
                 /\ PrintT("@@DONE " \o ToString(Len(Traces) - Len(Rejected)) \o " OF " \o ToString(Len(Traces)))
=============================================================================
