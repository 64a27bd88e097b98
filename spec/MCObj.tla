------------------------------- MODULE MCObj -------------------------------
(* All short OBJ files: the meaning is well-formed, and independent of what does not matter. *)
EXTENDS ObjFile, TLC, Json
CONSTANTS MaxCmds, Menu
VARIABLES cs, s
vars == <<cs, s>>
Lib == [a |-> <<[c |-> "newmtl", name |-> "m1"], [c |-> "Kd", x |-> <<1, 2, 3>>], [c |-> "newmtl", name |-> "m2"], [c |-> "Ke", x |-> <<4, 0, 0>>]>>]
V(a, b, c) == [c |-> "v", x |-> <<a, b, c>>]
F(vs) == [c |-> "f", vs |-> vs]
Cmds == CASE Menu = "index" -> {V(0, 0, 0), V(4, 0, 0), V(0, 4, 0), [c |-> "vn", x |-> <<0, 0, 4>>], [c |-> "vt", x |-> <<1, 2>>],
                                F(<<<<1, 0, 0>>, <<2, 0, 0>>, <<3, 0, 0>>>>), F(<<<<-3, 0, 0>>, <<-2, 0, 0>>, <<-1, 0, 0>>>>), F(<<<<1, 0, 1>>, <<2, 0, 1>>, <<-1, 0, -1>>>>),
                                F(<<<<1, 1, 0>>, <<2, -1, 0>>, <<3, 1, 0>>, <<1, 1, 0>>>>), F(<<<<1, 0, 0>>, <<2, 0, 0>>>>)}
          [] Menu = "group" -> {[c |-> "g", name |-> "x"], [c |-> "mtllib", name |-> "a"], [c |-> "mtllib", name |-> "none"], [c |-> "usemtl", name |-> "m1"], [c |-> "usemtl", name |-> "m2"],
                                [c |-> "usemtl", name |-> "zz"], [c |-> "other"], F(<<<<1, 0, 0>>, <<2, 0, 0>>, <<3, 0, 0>>>>), F(<<<<3, 0, 0>>, <<2, 0, 0>>, <<1, 0, 0>>, <<2, 0, 0>>, <<3, 0, 0>>>>)}
RECURSIVE Run(_, _)
Run(st, xs) == IF xs = <<>> THEN st ELSE Run(Do(st, Head(xs), Lib), Tail(xs))
Begin == CASE Menu = "group" -> <<V(0, 0, 0), V(4, 0, 0), V(0, 4, 0)>> [] OTHER -> <<>>
Init == cs = Begin /\ s = Run(Start, Begin)
Next == /\ Len(cs) < Len(Begin) + MaxCmds /\ ~s.err
        /\ \E c \in Cmds : cs' = Append(cs, c) /\ s' = Do(s, c, Lib)
Spec == Init /\ [][Next]_vars
\* faces written by the commands: number of vertices beyond two
RECURSIVE Tris(_)
Tris(xs) == IF xs = <<>> THEN 0 ELSE (IF Head(xs).c = "f" THEN Len(Head(xs).vs) - 2 ELSE 0) + Tris(Tail(xs))
RECURSIVE Held(_)
Held(gs) == IF gs = <<>> THEN 0 ELSE Len(Head(gs).fs) + Held(Tail(gs))
NothingLost == ~s.err => Held(s.prims) = Tris(cs) /\ Held(Filled(s)) = Tris(cs)
MaterialsExist == ~s.err => \A g \in 1..Len(s.prims) : s.prims[g].m \in 1..Len(Mats(s))
\* a face is under the material named last before it
RECURSIVE LastUse(_, _)
LastUse(xs, d) == IF xs = <<>> THEN d ELSE LastUse(Tail(xs), IF Head(xs).c = "usemtl" THEN Head(xs).name ELSE d)
UnderItsMaterial == ~s.err /\ s.prims # <<>> /\ LastUse(cs, "") # "" => s.mats[s.prims[Len(s.prims)].m].name = LastUse(cs, "")
GroupsFilled == \A g \in 1..Len(s.prims) - 1 : s.prims[g].fs # <<>>
Relative == [][(Len(cs') > Len(cs) /\ cs'[Len(cs')].c = "f" /\ ~s'.err) =>
                 \A k \in 1..Len(s'.prims[Len(s'.prims)].fs) : \A v \in 1..3 : s'.prims[Len(s'.prims)].fs[k][v][1] >= -1]_vars
Emit == (s.err \/ Len(cs) = Len(Begin) + MaxCmds) => PrintT("@@" \o ToJson([cs |-> cs]))
=============================================================================
