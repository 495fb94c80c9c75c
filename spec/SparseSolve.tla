---------------------------- MODULE SparseSolve ----------------------------
(* Long vectors and the method of conjugate gradients, as the user sees them. *)
(* regs: a file of vectors; net: a network of conductors with restricted nodes *)
(* whose potentials are computed by the loop over all hyperedges and CG.       *)
EXTENDS VUtil
VARIABLES regs, net
sparsevars == <<regs, net>>
Fits(a, b) == Len(regs[a]) = Len(regs[b])
Dot(u, v) == Sum([k \in 1..Len(u) |-> u[k] * v[k]])
Comb(p, u, q, v) == [k \in 1..Len(u) |-> p * u[k] + q * v[k]]

(* --------------------------------------------------------- linear systems  *)
\* Matrices are sequences of rows.
Apply(A, x) == [i \in 1..Len(A) |-> Dot(A[i], x)]
P == 46337                                   \* a prime whose square has 31 bits
ModP(x) == ((x % P) + P) % P
ApplyP(A, x) == [i \in 1..Len(A) |-> FoldLeft(LAMBDA s, k : (s + ModP(A[i][k]) * x[k]) % P, 0, [k \in 1..Len(x) |-> k])]
RECURSIVE Powers(_, _, _)                    \* b, Ab, A(Ab), ... (modulo P)
Powers(A, v, n) == IF n = 0 THEN <<>> ELSE <<v>> \o Powers(A, ApplyP(A, v), n - 1)
RECURSIVE RankP(_)                           \* rank of a set of rows, modulo P
RankP(M) ==
  IF M = <<>> THEN 0
  ELSE LET row == Head(M) rest == Tail(M) piv == {k \in 1..Len(row) : row[k] # 0} IN
       IF piv = {} THEN RankP(rest)
       ELSE LET p == CHOOSE k \in piv : TRUE IN
            1 + RankP([i \in 1..Len(rest) |->
                   [k \in 1..Len(row) |-> ModP(((row[p] * rest[i][k]) % P) - ((rest[i][p] * row[k]) % P))]])
\* In exact arithmetic, the method ends after as many steps as the Krylov space has dimensions.
Degree(A, b) == RankP(Powers(A, [k \in 1..Len(b) |-> ModP(b[k])], Len(b)))
Allowed(n, its) == IF its = 0 THEN n ELSE its
\* The first iterate is the multiple of b with minimal energy error: its residual is
\* (b * bAb - Ab * bb) / bAb.  Is it smaller than tol/10?
\* (b is given in units of 1/u.)
FirstSmall(A, b, u, tol) ==
  LET Ab == Apply(A, b) bb == Dot(b, b) bAb == Dot(b, Ab)
      res == [k \in 1..Len(b) |-> b[k] * bAb - Ab[k] * bb] IN
  100 * Dot(res, res) < tol * tol * u * u * bAb * bAb
ZerothSmall(b, u, tol) == 100 * Dot(b, b) < tol * tol * u * u

(* ------------------------------------------------------------- a network   *)
\* net = [n, edges (<<i, j, weight, source at i, source at j>>), fixed]
Balance(x, i) ==
  Sum([e \in 1..Len(net.edges) |->
         LET c == net.edges[e] IN
         (IF c[1] = i THEN c[3] * (x[c[1] + 1] - x[c[2] + 1]) ELSE 0)
         + (IF c[2] = i THEN c[3] * (x[c[2] + 1] - x[c[1] + 1]) ELSE 0)])
Supply(i) == Sum([e \in 1..Len(net.edges) |->
                    LET c == net.edges[e] IN (IF c[1] = i THEN c[4] ELSE 0) + (IF c[2] = i THEN c[5] ELSE 0)])
=============================================================================
