---------------------------- MODULE PyWorldTrace ----------------------------
EXTENDS PyWorld, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, s
tvars == <<ti, l, s>>
Ev == Traces[ti].ev[l]
Is(o) == Ev.op = o
Set(q) == {q[i] : i \in 1..Len(q)}
TInit == ti \in 1..Len(Traces) /\ l = 1 /\ TLCSet(ti, 0) /\ s = Start
Bad == Ev.ret # "ok"
\* everything born or alive before and not in the world afterwards has died, and nothing else; names lead
\* to the instances, which answer with their values, also when asked through the material
Looks(t) ==
    /\ Set(Ev.died) = (Live(s) \cup Set(Ev.born)) \ Live(t)
    /\ Len(Ev.died) = Cardinality(Set(Ev.died))
    /\ {Ev.names[i].n : i \in 1..Len(Ev.names)} = DOMAIN t.tree
    /\ \A i \in 1..Len(Ev.names) : LET q == Ev.names[i]  j == t.tree[q.n] IN
          q.i = j /\ q.val = t.inst[j].val /\ q.cls = t.inst[j].cls /\ q.key = "texture::" \o t.inst[j].key /\ q.loc = "$.assets." \o q.n
    /\ \A i \in 1..Len(Ev.vars) : LET q == Ev.vars[i] IN q.x \in DOMAIN t.held /\ q.i = t.held[q.x] /\ q.val = t.inst[q.i].val /\ q.cls = t.inst[q.i].cls
    /\ Len(Ev.vars) = Cardinality(DOMAIN t.held)
    /\ Ev.m = (IF t.m = "" THEN <<>> ELSE IF t.m = "?" THEN <<1>> ELSE <<t.inst[t.tree[t.m]].val>>)
    /\ s' = t
Quiet == Ev.born = <<>>
Reg == Is("Reg") /\ Ev.ret = "ok" /\ Quiet /\ Looks(DoReg(s, Ev.k, Ev.c))
Unreg == Is("Unreg") /\ Ev.ret = "ok" /\ Quiet /\ Looks(DoUnreg(s, Ev.k))
Load == /\ Is("Load")
        /\ IF ~Can(s, Ev.k) THEN Bad /\ Quiet /\ Looks(s)
           ELSE /\ Len(Ev.born) = 1
                /\ IF Ev.fail THEN Ev.ret = "ValueError" /\ Looks(s)
                   ELSE Ev.ret = "ok" /\ Ev.same /\ Looks(DoLoad(s, Ev.n, Ev.born[1], Ev.k, Ev.v))
Create == /\ Is("Create")
          /\ IF ~Can(s, Ev.k) THEN Bad /\ Quiet /\ Looks(s)
             ELSE /\ Len(Ev.born) = 1
                  /\ IF Ev.fail THEN Ev.ret = "ValueError" /\ Looks(s)
                     ELSE Ev.ret = "ok" /\ Looks(DoCreate(s, Ev.x, Ev.born[1], Ev.k, Ev.v))
Hold == Is("Hold") /\ Ev.ret = "ok" /\ Quiet /\ Looks(DoHold(s, Ev.x, Ev.n))
DropOp == Is("Drop") /\ Ev.ret = "ok" /\ Quiet /\ Looks(DoDrop(s, Ev.x))
Reset == Is("Reset") /\ Ev.ret = "ok" /\ Quiet /\ Looks(DoReset(s))
Save == Is("Save") /\ Ev.ret = "ok" /\ Quiet /\ Looks(DoSave(s))
\* the state afterwards shows which of the new instances is where
LoadState == /\ Is("LoadState")
             /\ IF ~Loadable(s) THEN Bad /\ Looks(s)
                ELSE /\ Ev.ret = "ok" /\ Len(Ev.born) = Cardinality(DOMAIN s.file.as)
                     /\ {Ev.names[i].n : i \in 1..Len(Ev.names)} = DOMAIN s.file.as
                     /\ {Ev.names[i].i : i \in 1..Len(Ev.names)} = Set(Ev.born)
                     /\ Looks(DoLoadState(s, [n \in DOMAIN s.file.as |-> Ev.names[CHOOSE i \in 1..Len(Ev.names) : Ev.names[i].n = n].i]))
Material == Is("Material") /\ Quiet /\ Ev.ret = "ok" /\ Looks(DoMaterial(s, Ev.n))
TNext == /\ l <= Len(Traces[ti].ev)
         /\ (Reg \/ Unreg \/ Load \/ Create \/ Hold \/ DropOp \/ Reset \/ Save \/ LoadState \/ Material)
         /\ l' = l + 1 /\ ti' = ti
TraceSpec == TInit /\ [][TNext]_tvars
TraceProgress == TLCSet(ti, IF TLCGet(ti) > l THEN TLCGet(ti) ELSE l)
Rejected == SelectSeq([k \in 1..Len(Traces) |-> <<k, TLCGet(k)>>], LAMBDA x : x[2] # Len(Traces[x[1]].ev) + 1)
TraceAccepted == /\ PrintT("@@REJ " \o ToJson(Rejected))
                 /\ PrintT("@@DONE " \o ToString(Len(Traces) - Len(Rejected)) \o " OF " \o ToString(Len(Traces)))
=============================================================================
