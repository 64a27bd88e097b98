--------------------------------- MODULE Big ---------------------------------
(* Natural numbers beyond TLC's 32 bits: sequences of base-1000 digits, least significant first. *)
EXTENDS Integers, Sequences
LOCAL D(a, j) == IF j <= Len(a) THEN a[j] ELSE 0
RECURSIVE Carry(_, _, _, _)
Carry(f, n, j, c) == IF j > n /\ c = 0 THEN <<>> ELSE
    LET v == (IF j <= n THEN f[j] ELSE 0) + c IN <<v % 1000>> \o Carry(f, n, j + 1, v \div 1000)
BigAdd(a, b) == LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b) IN Carry([j \in 1..n |-> D(a, j) + D(b, j)], n, 1, 0)
RECURSIVE SumTo(_, _, _, _, _)
SumTo(a, b, k, i, acc) == IF i > k THEN acc ELSE SumTo(a, b, k, i + 1, acc + D(a, i) * D(b, k + 1 - i))
BigMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE
    LET n == Len(a) + Len(b) - 1 IN Carry([k \in 1..n |-> SumTo(a, b, k, 1, 0)], n, 1, 0)
RECURSIVE Norm(_)
Norm(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a) - 1)) ELSE a
BigEq(a, b) == Norm(a) = Norm(b)
BigLt(a, b) == LET x == Norm(a)  y == Norm(b) IN
    IF Len(x) # Len(y) THEN Len(x) < Len(y)
    ELSE \E j \in 1..Len(x) : x[j] < y[j] /\ \A k \in j+1..Len(x) : x[k] = y[k]
=============================================================================
