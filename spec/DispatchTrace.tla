---------------------------- MODULE DispatchTrace ----------------------------
EXTENDS Dispatch, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, objs
tvars == <<ti, l, objs>>
Ev == Traces[ti].ev[l]
Is(o) == Ev.op = o
Set(q) == {q[i] : i \in 1..Len(q)}
TInit == ti \in 1..Len(Traces) /\ l = 1 /\ TLCSet(ti, 0) /\ objs = <<>>
Make == Is("Make") /\ Ev.ret = "ok" /\ objs' = [q \in DOMAIN objs \cup {Ev.o} |-> IF q = Ev.o THEN Set(Ev.has) ELSE objs[q]]
Call == /\ Is("Call") /\ objs' = objs
        /\ Ev.got = Reached(objs, Ev.o, Ev.m, Ev.args)
        /\ LET e == Ends(objs, Ev.o, Ev.m, Ev.ans) IN
           CASE e = "refused" -> Ev.ret \notin {"ok", "ValueError"}
             [] e = "raised" -> Ev.ret = "ValueError"
             [] OTHER -> Ev.ret = "ok" /\ Ev.res = Ev.ans
TNext == /\ l <= Len(Traces[ti].ev)
         /\ (Make \/ Call)
         /\ l' = l + 1 /\ ti' = ti
TraceSpec == TInit /\ [][TNext]_tvars
TraceProgress == TLCSet(ti, IF TLCGet(ti) > l THEN TLCGet(ti) ELSE l)
Rejected == SelectSeq([k \in 1..Len(Traces) |-> <<k, TLCGet(k)>>], LAMBDA x : x[2] # Len(Traces[x[1]].ev) + 1)
TraceAccepted == /\ PrintT("@@REJ " \o ToJson(Rejected))
                 /\ PrintT("@@DONE " \o ToString(Len(Traces) - Len(Rejected)) \o " OF " \o ToString(Len(Traces)))
=============================================================================
