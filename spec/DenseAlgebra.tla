---------------------------- MODULE DenseAlgebra ----------------------------
(* Dense matrices as a register machine.  A matrix is a record of its number  *)
(* of rows and columns and of its entries, column by column.                  *)
EXTENDS VUtil, TLC
CONSTANT Dims, Slots
VARIABLE regs                \* <<rows, columns, slot>> -> sequence of entries
Names == {<<r, c, s>> : r \in Dims, c \in Dims, s \in Slots}

Mat(r, c, F(_, _)) == [k \in 1..(r * c) |-> F(((k - 1) % r) + 1, ((k - 1) \div r) + 1)]
At(m, r, i, j) == m[(j - 1) * r + i]
MulM(a, b, r, k, c) == Mat(r, c, LAMBDA i, j : Sum([q \in 1..k |-> At(a, r, i, q) * At(b, k, q, j)]))
\* a: r by ka, b: kb by c, only the first min(ka, kb) columns / rows take part
UnfitM(a, b, r, ka, kb, c) ==
  Mat(r, c, LAMBDA i, j : Sum([q \in 1..Min2(ka, kb) |-> At(a, r, i, q) * At(b, kb, q, j)]))
TransM(a, r, c) == Mat(c, r, LAMBDA i, j : At(a, r, j, i))
Map2(a, b, Op(_, _)) == [k \in 1..Len(a) |-> Op(a[k], b[k])]
Map1(a, Op(_)) == [k \in 1..Len(a) |-> Op(a[k])]
RepM(v, r, c) == Mat(r, c, LAMBDA i, j : v[i])
DyadM(u, v) == Mat(Len(u), Len(v), LAMBDA i, j : u[i] * v[j])
DiagM(v, r, c) == Mat(r, c, LAMBDA i, j : IF i = j /\ i <= Len(v) THEN v[i] ELSE 0)
IdM(n) == DiagM([i \in 1..n |-> 1], n, n)
CrossM(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
ColM(a, r, j) == [i \in 1..r |-> At(a, r, i, j)]
SetColM(a, r, j, v) == [k \in 1..Len(a) |-> IF (k - 1) \div r = j - 1 THEN v[((k - 1) % r) + 1] ELSE a[k]]
\* addition with a column that is added to every column
Spread(a, r, c, cc) == IF c = cc THEN a ELSE RepM(a, r, cc)
ScalarProd(a, b) == Sum([k \in 1..Len(a) |-> a[k] * b[k]])
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> THEN FALSE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE LexLess(Tail(a), Tail(b))
Norm1(a, r, c) == MaxOf([j \in 1..c |-> Sum([i \in 1..r |-> Abs(At(a, r, i, j))])])
NormInf(a, r, c) == MaxOf([i \in 1..r |-> Sum([j \in 1..c |-> Abs(At(a, r, i, j))])])
NormVec(a) == MaxOf([i \in 1..Len(a) |-> Abs(a[i])])

\* determinant and adjugate
MinorM(a, n, i, j) == Mat(n - 1, n - 1, LAMBDA p, q : At(a, n, IF p < i THEN p ELSE p + 1, IF q < j THEN q ELSE q + 1))
RECURSIVE Det(_, _)
Det(a, n) == IF n = 0 THEN 1 ELSE
  Sum([j \in 1..n |-> (IF j % 2 = 1 THEN 1 ELSE -1) * (IF At(a, n, 1, j) = 0 THEN 0 ELSE At(a, n, 1, j) * Det(MinorM(a, n, 1, j), n - 1))])
Adj(a, n) == Mat(n, n, LAMBDA i, j : (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(MinorM(a, n, j, i), n - 1))
Gram(a, r, c) == MulM(TransM(a, r, c), a, c, r, c)

\* division: exact, and never by zero
Divides(b, a) == b # 0 /\ a % Abs(b) = 0
Quot(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)

Put(d, v) == /\ d \in Names /\ Len(v) = d[1] * d[2] /\ regs' = [regs EXCEPT ![d] = v]
=============================================================================
