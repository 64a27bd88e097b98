------------------------------- MODULE Bridge -------------------------------
(* What becomes of a value on its way between Python and the library.              *)
(* Values are records: k is the kind of the value, v its content.  The library      *)
(* knows null, booleans, integers of 64 bits, floats, texts, lists and dictionaries *)
(* with texts as names.  Tuples, ranges and arrays of floats arrive as lists, a     *)
(* component as its locator; everything else is refused.                            *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Takes(_)
Takes(x) ==
    CASE x.k \in {"null", "bool", "int", "float", "npfloat", "str", "comp", "range", "array"} -> TRUE
      [] x.k \in {"list", "tuple"} -> \A i \in 1..Len(x.v) : Takes(x.v[i])
      [] x.k = "dict" -> \A i \in 1..Len(x.v) : x.v[i].n.k = "str" /\ Takes(x.v[i].v)
      [] OTHER -> FALSE
RECURSIVE Becomes(_)
Becomes(x) ==
    CASE x.k = "null" -> [k |-> "null", v |-> <<>>]
      [] x.k = "npfloat" -> [k |-> "float", v |-> x.v]
      [] x.k = "comp" -> [k |-> "str", v |-> "$.assets." \o x.v]
      [] x.k \in {"list", "tuple"} -> [k |-> "list", v |-> [i \in 1..Len(x.v) |-> Becomes(x.v[i])]]
      [] x.k = "range" -> [k |-> "list", v |-> [i \in 1..Len(x.v) |-> [k |-> "int", v |-> x.v[i]]]]
      [] x.k = "array" -> [k |-> "list", v |-> [i \in 1..Len(x.v) |-> [k |-> "float", v |-> x.v[i]]]]
      [] x.k = "dict" -> [k |-> "dict", v |-> {[n |-> x.v[i].n.v, v |-> Becomes(x.v[i].v)] : i \in 1..Len(x.v)}]
      [] OTHER -> x
(* ---- arrays as vectors and matrices: a view of a buffer by offset, shape and strides ---- *)
Elem(a, i) == a.buf[(a.off + i * a.str[1]) + 1]
Elem2(a, i, j) == a.buf[((a.off + i * a.str[1]) + j * a.str[2]) + 1]
IsVec(a, n) == a.t = "d" /\ Len(a.shape) = 1 /\ a.shape[1] = n
IsMat(a, n) == a.t = "d" /\ Len(a.shape) = 2 /\ a.shape[1] = n /\ a.shape[2] = n
Vec(a) == [i \in 1..a.shape[1] |-> Elem(a, i - 1)]
Mat(a) == [i \in 1..a.shape[1] |-> [j \in 1..a.shape[2] |-> Elem2(a, i - 1, j - 1)]]
Turned(a) == [a EXCEPT !.shape = <<a.shape[2], a.shape[1]>>, !.str = <<a.str[2], a.str[1]>>]
(* ---- the library's own transforms ---- *)
D4(i, j) == IF i = j THEN 1 ELSE 0
MIdentity == [i \in 1..4 |-> [j \in 1..4 |-> D4(i, j)]]
MTranslate(v) == [i \in 1..4 |-> [j \in 1..4 |-> IF j = 4 /\ i < 4 THEN v[i] ELSE D4(i, j)]]
MScale(v) == [i \in 1..4 |-> [j \in 1..4 |-> IF i = j THEN (IF i = 4 THEN 1 ELSE v[i]) ELSE 0]]
\* a quarter turn about a coordinate axis, counterclockwise seen from its tip
Next3(a) == (a % 3) + 1
MQuarter(a) == [i \in 1..4 |-> [j \in 1..4 |->
    CASE i = 4 \/ j = 4 \/ i = a \/ j = a -> D4(i, j)
      [] i = Next3(a) /\ j = Next3(Next3(a)) -> -1
      [] i = Next3(Next3(a)) /\ j = Next3(a) -> 1
      [] OTHER -> 0]]
(* ---- films: rows of pixels from below, seen as an array ---- *)
Blank(w, h) == [y \in 1..h |-> [x \in 1..w |-> <<0, 0, 0>>]]
SetPx(f, x, y, v) == [f EXCEPT ![y + 1] = [@ EXCEPT ![x + 1] = v]]
=============================================================================
