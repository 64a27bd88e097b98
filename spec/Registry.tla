------------------------------ MODULE Registry ------------------------------
(* Registry of component implementations, aliases and plugins.
   impl:  key -> version of the registered implementation
   alias: alias -> key
   open:  paths under which plugins are loaded (a path denotes the plugin file it leads to)
   live:  instances -> version that created them                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* e.file: the plugin the path leads to ("" when there is none); plugin p registers key "vtp::p" as version "plugin"
PlugKey(p) == "vtp::" \o p
PlugImpl(fileOf, open) == {PlugKey(fileOf[p]) : p \in open}

Resolve(st, name) == LET k == IF name \in DOMAIN st.alias THEN st.alias[name] ELSE name IN
    IF k \in DOMAIN st.impl THEN [ok |-> TRUE, key |-> k, v |-> st.impl[k]] ELSE [ok |-> FALSE, key |-> "", v |-> 0]

\* plugin set changed to o: registrations of plugins come and go with their file
Plug(st, o, fileOf) ==
    LET was == PlugImpl(st.fileOf, st.open)  now == PlugImpl(fileOf, o) IN
    [st EXCEPT !.open = o, !.fileOf = fileOf,
               !.impl = [k \in (DOMAIN st.impl \ (was \ now)) \cup (now \ was) |-> IF k \in now \ was THEN -1 ELSE st.impl[k]]]

Empty == [impl |-> <<>>, alias |-> <<>>, open |-> {}, fileOf |-> <<>>, live |-> <<>>]

\* out: what the call reports; st: the registry afterwards
Effect(st, e) ==
    CASE e.op = "Reg" -> [out |-> "ok", st |-> [st EXCEPT !.impl = Put(@, e.key, e.v), !.alias = IF e.alias = "" THEN @ ELSE Put(@, e.alias, e.key)]]
      [] e.op = "Unreg" -> [out |-> "ok", st |-> [st EXCEPT !.impl = Del(@, e.key), !.alias = IF e.alias = "" THEN @ ELSE Del(@, e.alias)]]
      [] e.op = "Create" -> LET r == Resolve(st, e.name) IN
            IF r.ok THEN [out |-> "ok", st |-> [st EXCEPT !.live = Put(@, e.id, [key |-> r.key, v |-> r.v])]] ELSE [out |-> "none", st |-> st]
      [] e.op = "Destroy" -> [out |-> "ok", st |-> [st EXCEPT !.live = Del(@, e.id)]]
      [] e.op = "Load" -> IF e.path \in st.open THEN [out |-> "ok", st |-> st]
                          ELSE IF e.file = "" THEN [out |-> "lm:IOError", st |-> st]
                          ELSE [out |-> "ok", st |-> Plug(st, st.open \cup {e.path}, Put(st.fileOf, e.path, e.file))]
      [] e.op = "Unload" -> IF e.path \notin st.open THEN [out |-> "lm:IOError", st |-> st]
                            ELSE [out |-> "ok", st |-> Plug(st, st.open \ {e.path}, st.fileOf)]
      [] e.op = "LoadDir" -> [out |-> "ok", st |-> Plug(st, st.open \cup {e.files[j].path : j \in 1..Len(e.files)},
                                [p \in DOMAIN st.fileOf \cup {e.files[j].path : j \in 1..Len(e.files)} |->
                                   IF \E j \in 1..Len(e.files) : e.files[j].path = p THEN e.files[CHOOSE j \in 1..Len(e.files) : e.files[j].path = p].file ELSE st.fileOf[p]])]
      [] e.op = "UnloadAll" -> [out |-> "ok", st |-> Plug(st, {}, st.fileOf)]

\* What must hold in every state
Consistent(st) == /\ PlugImpl(st.fileOf, st.open) \subseteq DOMAIN st.impl
                  /\ \A n \in DOMAIN st.alias : Resolve(st, n).ok => Resolve(st, n).key = st.alias[n]
=============================================================================
