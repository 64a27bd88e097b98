------------------------------ MODULE MCBridge ------------------------------
(* All small values and all views of a small buffer. *)
EXTENDS Bridge, Json, TLC
CONSTANTS Depth, MaxLen
VARIABLES x, d, a, done
vars == <<x, d, a, done>>
Atoms == {[k |-> "null", v |-> <<>>], [k |-> "bool", v |-> TRUE], [k |-> "int", v |-> "7"], [k |-> "int", v |-> "-9223372036854775808"], [k |-> "int", v |-> "4294967296"],
          [k |-> "float", v |-> "0x1.8000000000000p+0"], [k |-> "npfloat", v |-> "0x1.8000000000000p+0"], [k |-> "str", v |-> "s"], [k |-> "comp", v |-> "c1"],
          [k |-> "range", v |-> <<"0", "1">>], [k |-> "array", v |-> <<"0x1.8000000000000p+0">>], [k |-> "huge", v |-> "18446744073709551616"],
          [k |-> "set", v |-> <<>>], [k |-> "object", v |-> <<>>], [k |-> "ray", v |-> <<>>], [k |-> "enum", v |-> <<>>]}
Str(s) == [k |-> "str", v |-> s]
\* strides that stay within a buffer of 9
Views == {v \in [off : 0..8, shape : {<<n>> : n \in 2..4}, str : {<<s>> : s \in -4..4}, t : {"d", "f"}, buf : {[i \in 1..9 |-> 10 + i]}] :
             LET e == v.off + (v.shape[1] - 1) * v.str[1] IN e \in 0..8}
Init == x \in Atoms /\ d = 0 /\ a \in (IF x.k = "null" THEN Views ELSE {[off |-> 0, shape |-> <<3>>, str |-> <<1>>, t |-> "d", buf |-> [i \in 1..9 |-> 10 + i]]}) /\ done = FALSE
Grow == /\ ~done /\ d < Depth /\ d' = d + 1 /\ UNCHANGED <<a, done>>
        /\ \/ x' \in {[k |-> q, v |-> <<x>>] : q \in {"list", "tuple"}}
           \/ \E y \in Atoms : x' \in {[k |-> "list", v |-> <<y, x>>], [k |-> "dict", v |-> <<[n |-> Str("a"), v |-> x], [n |-> Str("b"), v |-> y]>>]}
           \/ x' = [k |-> "dict", v |-> <<[n |-> [k |-> "int", v |-> "1"], v |-> x]>>]
Next == Grow \/ (~done /\ done' = TRUE /\ UNCHANGED <<x, d, a>>)
Spec == Init /\ [][Next]_vars
RECURSIVE Json0(_)
Json0(y) == CASE y.k = "list" -> \A i \in 1..Len(y.v) : Json0(y.v[i])
              [] y.k = "dict" -> \A m \in y.v : Json0(m.v)
              [] OTHER -> y.k \in {"null", "bool", "int", "float", "str"}
\* what arrives is a value of the library, and it is the whole value or none
Known == Takes(x) => Json0(Becomes(x))
Whole == (x.k \in {"list", "tuple"} => (Takes(x) <=> \A i \in 1..Len(x.v) : Takes(x.v[i]))) /\ (x.k \in {"list", "tuple"} /\ Takes(x) => Len(Becomes(x).v) = Len(x.v))
\* a view of a view backwards is the vector backwards; a matrix turned twice is the matrix
Back == LET n == a.shape[1]  b == [a EXCEPT !.off = a.off + (n - 1) * a.str[1], !.str = <<-a.str[1]>>] IN \A i \in 1..n : Vec(b)[i] = Vec(a)[(n + 1) - i]
Sq == [off |-> 0, shape |-> <<2, 2>>, str |-> <<a.str[1] % 3, 1 + (a.off % 3)>>, t |-> "d", buf |-> a.buf]
Turn == /\ \A i, j \in 1..2 : Mat(Turned(Sq))[i][j] = Mat(Sq)[j][i]
        /\ Mat(Turned(Turned(Sq))) = Mat(Sq)
Quarter == \A q \in 1..3 : \A i, j \in 1..4 : MQuarter(q)[i][j] * MQuarter(q)[i][j] = 1 => \A m \in 1..4 : (m # j => MQuarter(q)[i][m] = 0)
Emit == done => PrintT("@@" \o ToJson([x |-> x, a |-> a]))
=============================================================================
