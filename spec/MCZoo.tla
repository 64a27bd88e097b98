------------------------------- MODULE MCZoo -------------------------------
(* Histories of macros (sequences of operations) over a world of built-in components. *)
EXTENDS Zoo, Json, IOUtils

CONSTANTS K
In == JsonDeserialize(IOEnv.MENU)   \* [boot |-> ops, menu |-> <<ops, ...>>]
VARIABLE hist
vars == <<rec, files, hist>>

RECURSIVE Run(_, _, _)
Run(r, fs, ops) == IF ops = <<>> THEN [rec |-> r, files |-> fs]
                   ELSE LET x == EffectOn(r, fs, Head(ops)) IN Run(x.rec, x.files, Tail(ops))

Boot == Run(<<>>, <<>>, In.boot)
Init == rec = Boot.rec /\ files = Boot.files /\ hist = <<>>
Next == /\ Len(hist) < K
        /\ \E m \in 1..Len(In.menu) :
              /\ \A j \in 1..Len(In.menu[m]) : In.menu[m][j].op = "LoadState" => In.menu[m][j].f \in DOMAIN files
              /\ LET x == Run(rec, files, In.menu[m]) IN rec' = x.rec /\ files' = x.files
              /\ hist' = Append(hist, m)
Spec == Init /\ [][Next]_vars

\* Whatever can be saved means the same wherever it is loaded
Relocatable == \A root \in DOMAIN rec :
    SelfContained(rec, root) =>
        LET z == Graft(<<>>, <<"z", "y">>, Extract(rec, root))
        IN \A q \in PathsUnder(rec, root) : Closure(z, <<"z", "y">> \o Rel(root, q)) = Closure(rec, q)
\* A failed load changes nothing; a reference never closes over something that is not there unless it was never loaded
NoNull == \A p \in DOMAIN rec : \A t \in RefsOf(rec[p]) : t \in DOMAIN rec

Emit == Len(hist) < K \/ PrintT("@@" \o ToJson([h |-> hist, v |-> {<<p, <<rec[p].key, rec[p].p>>>> : p \in DOMAIN rec}]))
=============================================================================
