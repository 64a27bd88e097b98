----------------------------- MODULE AssetTree -----------------------------
(***************************************************************************)
(* The asset tree of the framework: named assets in nested asset groups,   *)
(* components owned by assets, weak references between components,         *)
(* replacement of assets, failed loads, whole-state and subtree            *)
(* persistence, reset.                                                     *)
(*                                                                         *)
(* A path is the sequence of names below the root asset group (<<>>).      *)
(* A node is [i: instance id, k: kind, t: tag, fl: fails when loaded,      *)
(*            refs: sequence of [ty, to, cur]]                             *)
(* where `cur' is the instance a weak reference currently designates       *)
(* (0: null), `to' the path it was resolved from, `ty' the interface it    *)
(* is declared with ("C": any component).                                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES tree,    \* path -> node
          files,   \* file name -> [st, sub]
          used     \* every instance id that was ever seen

treevars == <<tree, files, used>>

BadNames == {"", "a.b", "c.d", "a b", "$", "a/b", "x.", ".x", "a\"b", "a[0]", "a+b"}

IsPre(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Under(tr, p) == {q \in DOMAIN tr : IsPre(p, q)}
Restrict(f, S) == [x \in S |-> f[x]]
Without(tr, p) == Restrict(tr, DOMAIN tr \ Under(tr, p))
Put(tr, p, n) == [q \in DOMAIN tr \cup {p} |-> IF q = p THEN n ELSE tr[q]]
Ids(tr) == {tr[p].i : p \in DOMAIN tr}
KeyOf(k) == CASE k = "A" -> "vt::A" [] k = "B" -> "vt::B" [] k = "G" -> "asset_group::default" [] OTHER -> "?"

TypeOK(ty, k) == ty = "C" \/ ty = k
Resolves(tr, r) == r.to \in DOMAIN tr /\ TypeOK(r.ty, tr[r.to].k)
Current(tr, r) == IF Resolves(tr, r) THEN tr[r.to].i ELSE 0

Fail == [ok |-> FALSE, tree |-> <<>>]
Ok(tr) == [ok |-> TRUE, tree |-> tr]

(* References a component resolves when it is constructed.                 *)
MakeRefs(tr, rs) == [j \in 1..Len(rs) |-> [ty |-> rs[j].ty, to |-> rs[j].to, cur |-> Current(tr, rs[j])]]
RefsOk(tr, rs) == \A j \in 1..Len(rs) : rs[j].strict => Resolves(tr, rs[j])

(* A component owned by another one is reachable only once its own         *)
(* construction is complete, so everything below it is resolved against    *)
(* the tree as it was before.                                              *)
RECURSIVE BuildKid(_, _, _, _), BuildKids(_, _, _, _, _)
BuildKid(tr, q, x, id) ==
    IF x.fail # "no" \/ ~RefsOk(tr, x.refs) THEN Fail
    ELSE LET below == BuildKids(tr, q, x.kids, 1, id) IN
         IF ~below.ok THEN Fail
         ELSE Ok((q :> [i |-> id[q], k |-> x.k, t |-> x.tag, fl |-> x.fail_load, refs |-> MakeRefs(tr, x.refs)]) @@ below.tree)
BuildKids(tr, p, kids, j, id) ==
    IF j > Len(kids) THEN Ok(<<>>)
    ELSE LET b == BuildKid(tr, Append(p, kids[j].n), kids[j], id)
             r == BuildKids(tr, p, kids, j + 1, id) IN
         IF ~b.ok \/ ~r.ok THEN Fail ELSE Ok(b.tree @@ r.tree)

\* The children of an asset under construction: each one is reachable for the next.
RECURSIVE AddKids(_, _, _, _, _)
AddKids(tr, p, kids, j, id) ==
    IF j > Len(kids) THEN Ok(tr)
    ELSE LET b == BuildKid(tr, Append(p, kids[j].n), kids[j], id) IN
         IF ~b.ok THEN Fail ELSE AddKids(b.tree @@ tr, p, kids, j + 1, id)

(* Weak references everywhere else follow a replacement; a null stays null. *)
Follow(tr, p) ==
    [q \in DOMAIN tr |->
        IF IsPre(p, q) THEN tr[q]
        ELSE [tr[q] EXCEPT !.refs = [j \in 1..Len(tr[q].refs) |->
                [tr[q].refs[j] EXCEPT !.cur = IF @ = 0 THEN 0 ELSE Current(tr, tr[q].refs[j])]]]]

(* Loading an asset described by op under path p; id names the instances.  *)
DoLoad(tr, p, op, id) ==
    LET base == Put(Without(tr, p), p, [i |-> id[p], k |-> op.k, t |-> IF op.k = "G" THEN 0 ELSE op.tag,
                                        fl |-> IF op.k = "G" THEN 0 ELSE op.fail_load, refs |-> <<>>]) IN
    IF op.k = "G" THEN Ok(Follow(base, p))
    ELSE IF op.fail = "early" THEN Fail
    ELSE LET w == AddKids(base, p, op.kids, 1, id) IN
         IF ~w.ok \/ ~RefsOk(w.tree, op.refs) \/ op.fail # "no" THEN Fail
         ELSE Ok(Follow([w.tree EXCEPT ![p].refs = MakeRefs(w.tree, op.refs)], p))

(* A saved subtree: paths and references relative to its root.             *)
OuterRefs(tr, p) == \E q \in Under(tr, p) : \E j \in 1..Len(tr[q].refs) :
                        tr[q].refs[j].cur # 0 /\ ~IsPre(p, tr[q].refs[j].to)
Rel(p, q) == SubSeq(q, Len(p) + 1, Len(q))
Snapshot(tr, p) ==
    [r \in {Rel(p, q) : q \in Under(tr, p)} |->
        LET n == tr[p \o r] IN
        [k |-> n.k, t |-> n.t, fl |-> n.fl,
         refs |-> [j \in 1..Len(n.refs) |->
                    IF n.refs[j].cur = 0 THEN [ty |-> n.refs[j].ty, to |-> <<>>, nul |-> TRUE]
                    ELSE [ty |-> n.refs[j].ty, to |-> Rel(p, n.refs[j].to), nul |-> FALSE]]]]
LoadFails(sub) == \E r \in DOMAIN sub : sub[r].fl = 1

(* Grafting a saved subtree under p.                                       *)
Graft(tr, p, sub, id) ==
    LET new == {p \o r : r \in DOMAIN sub} IN
    [q \in DOMAIN tr \cup new |->
        IF q \notin new THEN tr[q]
        ELSE LET n == sub[Rel(p, q)] IN
             [i |-> id[q], k |-> n.k, t |-> n.t, fl |-> n.fl,
              refs |-> [j \in 1..Len(n.refs) |->
                 IF n.refs[j].nul THEN [ty |-> n.refs[j].ty, to |-> <<>>, cur |-> 0]
                 ELSE [ty |-> n.refs[j].ty, to |-> p \o n.refs[j].to, cur |-> id[p \o n.refs[j].to]]]]]

FileState(f) == IF f \in DOMAIN files THEN files[f].st ELSE "none"
SetFile(f, st, sub) == [g \in DOMAIN files \cup {f} |-> IF g = f THEN [st |-> st, sub |-> sub] ELSE files[g]]
EmptySub == <<>>

RootOnly(i) == (<<>> :> [i |-> i, k |-> "G", t |-> 0, fl |-> 0, refs |-> <<>>])

(***************************************************************************)
(* Outcome of one operation.  id: path -> instance id of every component   *)
(* the operation creates.  [out, tree, files]                              *)
(***************************************************************************)
Same(out) == [out |-> {out}, tree |-> tree, files |-> files]

LoadEffect(op, id) ==
    LET p == Append(op.g, op.n) IN
    IF op.g \notin DOMAIN tree \/ tree[op.g].k # "G" THEN Same("nogroup")
    ELSE IF op.n \in BadNames \/ op.k \notin {"A", "B", "G"} THEN Same("null")
    ELSE LET b == DoLoad(tree, p, op, id) IN
         IF b.ok THEN [out |-> {"ok"}, tree |-> b.tree, files |-> files]
         ELSE Same("throw")

LoadSerEffect(op, id) ==
    LET p == Append(op.g, op.n)  f == op.f IN
    IF op.g \notin DOMAIN tree \/ tree[op.g].k # "G" THEN Same("nogroup")
    ELSE IF op.n \in BadNames \/ p \in DOMAIN tree \/ FileState(f) # "ok" \/ LoadFails(files[f].sub)
         THEN [out |-> {"throw", "null"}, tree |-> tree, files |-> files]
    ELSE [out |-> {"ok"}, tree |-> Graft(tree, p, files[f].sub, id), files |-> files]

SaveEffect(op) ==
    IF op.p \notin DOMAIN tree THEN Same("missing")
    ELSE IF OuterRefs(tree, op.p) THEN [out |-> {"throw"}, tree |-> tree, files |-> SetFile(op.f, "bad", EmptySub)]
    ELSE [out |-> {"ok"}, tree |-> tree, files |-> SetFile(op.f, "ok", Snapshot(tree, op.p))]

LoadStateEffect(op, id) ==
    IF FileState(op.f) # "ok" THEN Same("throw")
    ELSE IF files[op.f].sub[<<>>].k # "G" \/ LoadFails(files[op.f].sub) THEN Same("throw")
    ELSE [out |-> {"ok"}, tree |-> Graft(<<>>, <<>>, files[op.f].sub, id), files |-> files]

TruncateEffect(op) ==
    IF FileState(op.f) = "ok" THEN [out |-> {"ok"}, tree |-> tree, files |-> SetFile(op.f, "bad", EmptySub)]
    ELSE IF FileState(op.f) = "bad" THEN [out |-> {"ok", "nofile"}, tree |-> tree, files |-> files]
    ELSE Same("nofile")

ResetEffect(id) == [out |-> {"ok"}, tree |-> RootOnly(id[<<>>]), files |-> files]

Effect(op, id) ==
    CASE op.op = "Load" -> LoadEffect(op, id)
      [] op.op = "LoadSer" -> LoadSerEffect(op, id)
      [] op.op = "Save" -> SaveEffect(op)
      [] op.op = "SaveState" -> SaveEffect([p |-> <<>>, f |-> op.f])
      [] op.op = "LoadState" -> LoadStateEffect(op, id)
      [] op.op = "Truncate" -> TruncateEffect(op)
      [] op.op = "Reset" -> ResetEffect(id)
      [] op.op = "Get" -> Same("ok")

\* Paths of the components an operation may create
RECURSIVE KidPaths(_, _)
KidPaths(p, kids) == UNION {{Append(p, kids[j].n)} \cup KidPaths(Append(p, kids[j].n), kids[j].kids) : j \in 1..Len(kids)}
PathsOf(op) ==
    CASE op.op = "Load" -> {Append(op.g, op.n)} \cup KidPaths(Append(op.g, op.n), op.kids)
      [] op.op = "LoadSer" -> IF FileState(op.f) = "ok" THEN {Append(op.g, op.n) \o r : r \in DOMAIN files[op.f].sub} ELSE {}
      [] op.op = "LoadState" -> IF FileState(op.f) = "ok" THEN DOMAIN files[op.f].sub ELSE {}
      [] OTHER -> {<<>>}

(***************************************************************************)
(* The guarantees, as invariants of the model.                             *)
(***************************************************************************)
\* Every component is reachable: its owner is in the tree.
Rooted == /\ <<>> \in DOMAIN tree /\ tree[<<>>].k = "G"
          /\ \A p \in DOMAIN tree : p # <<>> => SubSeq(p, 1, Len(p) - 1) \in DOMAIN tree
\* One instance per locator.
OneInstance == \A p, q \in DOMAIN tree : tree[p].i = tree[q].i => p = q
\* No weak reference designates anything but the component now at its locator.
NoDangling == \A p \in DOMAIN tree : \A j \in 1..Len(tree[p].refs) :
                LET r == tree[p].refs[j] IN
                r.cur # 0 => r.to \in DOMAIN tree /\ tree[r.to].i = r.cur /\ TypeOK(r.ty, tree[r.to].k)
\* Saved subtrees are closed.
FilesClosed == \A f \in DOMAIN files : files[f].st = "ok" =>
                 \A r \in DOMAIN files[f].sub : \A j \in 1..Len(files[f].sub[r].refs) :
                    files[f].sub[r].refs[j].nul \/ files[f].sub[r].refs[j].to \in DOMAIN files[f].sub
TreeInv == Rooted /\ OneInstance /\ NoDangling /\ FilesClosed
=============================================================================
