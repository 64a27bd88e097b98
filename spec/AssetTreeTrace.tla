--------------------------- MODULE AssetTreeTrace ---------------------------
(* Trace validation: is a recorded history of the real framework a behaviour of AssetTree? *)
EXTENDS AssetTree, Json, IOUtils, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l
tvars == <<tree, files, used, ti, l>>

Ev == Traces[ti].ev[l]
RangeOf(s) == {s[j] : j \in 1..Len(s)}

\* Instance ids as observed after the event
ObsPaths(e) == {e.snap[j].p : j \in 1..Len(e.snap)}
ObsId(e) == [p \in ObsPaths(e) |-> e.snap[CHOOSE j \in 1..Len(e.snap) : e.snap[j].p = p].i]
IdMap(e) == LET o == ObsId(e) IN [p \in PathsOf(e) |-> IF p \in DOMAIN o THEN o[p] ELSE -2]

\* What an observer of the public interface must see in tree tr
SnapOk(e, tr) ==
    /\ Len(e.snap) = Cardinality(DOMAIN tr)
    /\ {[p |-> e.snap[j].p, i |-> e.snap[j].i, k |-> e.snap[j].k, t |-> e.snap[j].t, refs |-> e.snap[j].refs] : j \in 1..Len(e.snap)}
       = {[p |-> p, i |-> tr[p].i, k |-> tr[p].k, t |-> tr[p].t, refs |-> [j \in 1..Len(tr[p].refs) |-> tr[p].refs[j].cur]] : p \in DOMAIN tr}
    /\ \A j \in 1..Len(e.snap) : e.snap[j].self = e.snap[j].i /\ e.snap[j].nameok /\ e.snap[j].key = KeyOf(e.snap[j].k)

\* Locators: exactly the paths of the tree resolve, each to its own instance
ResOk(e, tr) ==
    RangeOf(e.res) = {[p |-> u, i |-> tr[u].i] : u \in RangeOf(Traces[ti].cfg.universe) \cap DOMAIN tr}

\* Lifetimes: what left the tree, and what was created in vain, is destroyed, once, now; nothing else is
LifeOk(e, old, new) ==
    LET D == RangeOf(e.died)  Bn == RangeOf(e.born)  O == Ids(old)  N == Ids(new) IN
    /\ Cardinality(D) = Len(e.died)
    /\ Cardinality(Bn) = Len(e.born)
    /\ D = (O \ N) \cup (Bn \ N)
    /\ Bn \cap used = {}
    /\ {new[p].i : p \in {q \in DOMAIN new : new[q].k # "G"}} \ O \subseteq Bn
    /\ (N \ O) \cap used = {}

RetOk(e, tr) ==
    CASE e.op \in {"Load", "LoadSer"} /\ e.out = "ok" -> e.ret = tr[Append(e.g, e.n)].i
      [] e.op = "Get" -> e.ret = (IF e.wf /\ e.path \in DOMAIN tr /\ TypeOK(e.ty, tr[e.path].k) THEN tr[e.path].i ELSE 0)
      [] OTHER -> e.ret = 0

TInit == /\ ti \in 1..Len(Traces) /\ l = 1
         /\ tree = <<>> /\ files = <<>> /\ used = {}
         /\ TLCSet(ti, 0)

First == /\ Ev.op = "Init"
         /\ Len(Ev.snap) = 1
         /\ tree' = RootOnly(Ev.snap[1].i)
         /\ SnapOk(Ev, tree') /\ ResOk(Ev, tree')
         /\ used' = Ids(tree') /\ files' = files

Step == /\ Ev.op \in {"Load", "LoadSer", "Save", "SaveState", "LoadState", "Truncate", "Reset", "Get"}
        /\ LET x == Effect(Ev, IdMap(Ev)) IN
           /\ Ev.out \in x.out
           /\ tree' = x.tree /\ files' = x.files
           /\ SnapOk(Ev, x.tree) /\ ResOk(Ev, x.tree)
           /\ RetOk(Ev, x.tree)
           /\ LifeOk(Ev, tree, x.tree)
           /\ used' = used \cup Ids(x.tree) \cup RangeOf(Ev.born)
        /\ TreeInv'

\* The tree as it is printed: every component once, below its owner, with its key and what it refers to
RECURSIVE LocOf(_)
LocOf(p) == IF p = <<>> THEN "$.assets" ELSE LocOf(SubSeq(p, 1, Len(p) - 1)) \o "." \o p[Len(p)]
Refs(p) == {j \in 1..Len(tree[p].refs) : tree[p].refs[j].cur # 0}
RefCount(p, t) == Cardinality({j \in Refs(p) : LocOf(tree[p].refs[j].to) = t})
PrintStep == /\ Ev.op = "Print" /\ UNCHANGED treevars
         /\ Ev.out = "ok" /\ ~Ev.bad
         /\ Len(Ev.owned) = Cardinality(DOMAIN tree) - 1
         /\ RangeOf(Ev.owned) = {[p |-> p, key |-> KeyOf(tree[p].k)] : p \in DOMAIN tree \ {<<>>}}
         /\ IF ~Ev.weak THEN Ev.shown = <<>>
            ELSE /\ \A j \in 1..Len(Ev.shown) : Ev.shown[j].p \in DOMAIN tree
                 /\ \A p \in DOMAIN tree : \A t \in {LocOf(tree[p].refs[j].to) : j \in Refs(p)} \cup {x.to : x \in {y \in RangeOf(Ev.shown) : y.p = p}} :
                       Cardinality({j \in 1..Len(Ev.shown) : Ev.shown[j] = [p |-> p, to |-> t]}) = RefCount(p, t)
         /\ SnapOk(Ev, tree) /\ ResOk(Ev, tree) /\ LifeOk(Ev, tree, tree)
TNext == /\ l <= Len(Traces[ti].ev)
         /\ IF l = 1 THEN First ELSE Step \/ PrintStep
         /\ l' = l + 1 /\ ti' = ti

TraceSpec == TInit /\ [][TNext]_tvars

TraceProgress == TLCSet(ti, IF TLCGet(ti) > l THEN TLCGet(ti) ELSE l)
Rejected == SelectSeq([k \in 1..Len(Traces) |-> <<k, TLCGet(k)>>], LAMBDA x : x[2] # Len(Traces[x[1]].ev) + 1)
TraceAccepted == /\ PrintT("@@REJ " \o ToJson(Rejected))
                 /\ PrintT("@@DONE " \o ToString(Len(Traces) - Len(Rejected)) \o " OF " \o ToString(Len(Traces)))
=============================================================================
