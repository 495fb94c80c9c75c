------------------------------- MODULE VUtil -------------------------------
(* Small helpers shared by all specifications.                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Sum(s)      == FoldLeft(LAMBDA a, b : a + b, 0, s)
Prod(s)     == FoldLeft(LAMBDA a, b : a * b, 1, s)
Abs(x)      == IF x < 0 THEN -x ELSE x
Max2(a, b)  == IF a > b THEN a ELSE b
Min2(a, b)  == IF a < b THEN a ELSE b
MaxOf(s)    == FoldLeft(Max2, s[1], s)
Zeros(n)    == [k \in 1..n |-> 0]
Add(u, v)   == [k \in 1..Len(u) |-> u[k] + v[k]]
Close(a, b, tol) == a <= b + tol /\ b <= a + tol   \* no difference: no overflow
CloseSeq(u, v, tol) == Len(u) = Len(v) /\ \A k \in 1..Len(u) : Close(u[k], v[k], tol)
RECURSIVE IPow(_, _)
IPow(b, e)  == IF e = 0 THEN 1 ELSE b * IPow(b, e - 1)
RECURSIVE Gcd(_, _)
Gcd(a, b)   == IF b = 0 THEN a ELSE Gcd(b, a % b)
=============================================================================
