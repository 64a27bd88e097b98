------------------------------ MODULE LifeTrace ------------------------------
EXTENDS Life, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, s
tvars == <<ti, l, s>>
Ev == Traces[ti].ev[l]
TInit == ti \in 1..Len(Traces) /\ l = 1 /\ TLCSet(ti, 0) /\ s = None
Is(o) == Ev.op = o
Set(q) == {q[i] : i \in 1..Len(q)}
InitOp == Is("Init") /\ Ev.ret = "ok" /\ s' = Init0(s)
Shutdown == Is("Shutdown") /\ Ev.ret = RShutdown(s) /\ s' = IF s.up THEN Shutdown0(s) ELSE s
Reset == Is("Reset") /\ Ev.ret = "ok" /\ s' = Reset0(s)
Load == Is("Load") /\ Ev.ret = RTree(s) /\ s' = IF s.born THEN Load0(s, Ev.n) ELSE s
SubInitOp == Is("SubInit") /\ Ev.ret = "ok" /\ s' = SubInit(s, Ev.x, IF Ev.x = "par" THEN Ev.k ELSE 0)
SubOffOp == Is("SubOff") /\ Ev.ret = "ok" /\ s' = SubOff(s, Ev.x)
\* a state that is reported as saved can be loaded
Save == Is("Save") /\ (Ev.ret = "ok") = (s.born /\ Ev.to = "good") /\ s' = s
\* after every operation everything is looked at
Look == /\ Is("Look")
        /\ Ev.info = RShutdown(s)
        /\ Ev.tree = RTree(s)
        /\ Set(Ev.names) = s.names
        /\ Ev.par = RSub(s, "par") /\ Ev.pro = RSub(s, "pro") /\ Ev.obj = RSub(s, "obj")
        /\ (Ev.logged = "headed") = s.sub.log
        /\ (s.sub.par => Ev.threads = (IF s.threads = 0 THEN Ev.default ELSE s.threads)) = TRUE
        /\ (Ev.save = "ok") = s.born
        /\ s' = s
TNext == /\ l <= Len(Traces[ti].ev)
         /\ (InitOp \/ Shutdown \/ Reset \/ Load \/ SubInitOp \/ SubOffOp \/ Save \/ Look)
         /\ l' = l + 1 /\ ti' = ti
TraceSpec == TInit /\ [][TNext]_tvars
TraceProgress == TLCSet(ti, IF TLCGet(ti) > l THEN TLCGet(ti) ELSE l)
Rejected == SelectSeq([k \in 1..Len(Traces) |-> <<k, TLCGet(k)>>], LAMBDA x : x[2] # Len(Traces[x[1]].ev) + 1)
TraceAccepted == /\ PrintT("@@REJ " \o ToJson(Rejected))
                 /\ PrintT("@@DONE " \o ToString(Len(Traces) - Len(Rejected)) \o " OF " \o ToString(Len(Traces)))
=============================================================================
