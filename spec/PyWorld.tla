------------------------------ MODULE PyWorld ------------------------------
(* Components written in Python.  Classes are registered under keys; instances are in  *)
(* the tree under names or held by variables of Python, or both, and exist as long as   *)
(* either is the case.  A material refers to one of the names.                          *)
(* reg: key -> class; tree: name -> instance; held: variable -> instance (0: none);     *)
(* inst: instance -> [key, cls, val]; file: what was saved; m: name the material uses   *)
EXTENDS Integers, Sequences, FiniteSets
Put(f, k, v) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN v ELSE f[q]]
Del(f, k) == [q \in DOMAIN f \ {k} |-> f[q]]
Start == [reg |-> <<>>, tree |-> <<>>, held |-> <<>>, inst |-> <<>>, file |-> [on |-> FALSE, as |-> <<>>, m |-> ""], m |-> ""]
Rng(f) == {f[q] : q \in DOMAIN f}
Live(s) == Rng(s.tree) \cup Rng(s.held)
Poison == 13       \* a value that cannot be restored
\* forget instances that are gone
Tidy(s) == [s EXCEPT !.inst = [i \in Live(s) |-> s.inst[i]]]
New(s, i, k, v) == [s EXCEPT !.inst = Put(@, i, [key |-> k, cls |-> s.reg[k], val |-> v])]
DoReg(s, k, c) == [s EXCEPT !.reg = Put(@, k, c)]
DoUnreg(s, k) == [s EXCEPT !.reg = Del(@, k)]
Can(s, k) == k \in DOMAIN s.reg
DoLoad(s, n, i, k, v) == Tidy([New(s, i, k, v) EXCEPT !.tree = Put(@, n, i)])
DoCreate(s, x, i, k, v) == Tidy([New(s, i, k, v) EXCEPT !.held = Put(@, x, i)])
DoHold(s, x, n) == Tidy([s EXCEPT !.held = IF n \in DOMAIN s.tree THEN Put(@, x, s.tree[n]) ELSE Del(@, x)])
DoDrop(s, x) == Tidy([s EXCEPT !.held = Del(@, x)])
DoReset(s) == Tidy([s EXCEPT !.tree = <<>>, !.m = ""])
DoSave(s) == [s EXCEPT !.file = [on |-> TRUE, as |-> [n \in DOMAIN s.tree |-> [key |-> s.inst[s.tree[n]].key, val |-> s.inst[s.tree[n]].val]], m |-> s.m]]
Loadable(s) == s.file.on /\ \A n \in DOMAIN s.file.as : Can(s, s.file.as[n].key) /\ s.file.as[n].val # Poison
\* at: name -> new instance
DoLoadState(s, at) == LET a == s.file.as IN
    Tidy([s EXCEPT !.tree = at, !.m = s.file.m,
                   !.inst = [i \in DOMAIN s.inst \cup Rng(at) |-> IF \E n \in DOMAIN at : at[n] = i
                                THEN LET n == CHOOSE n \in DOMAIN at : at[n] = i IN [key |-> a[n].key, cls |-> s.reg[a[n].key], val |-> a[n].val]
                                ELSE s.inst[i]]])
\* a name that is not there leaves the material without texture: it is white ("?")
DoMaterial(s, n) == [s EXCEPT !.m = IF n \in DOMAIN s.tree THEN n ELSE "?"]
=============================================================================
