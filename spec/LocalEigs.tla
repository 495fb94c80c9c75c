------------------------------ MODULE LocalEigs ------------------------------
(* The local solver of the nonlinear eigenvalue problem: div q = e u on one    *)
(* hyperedge, with trace lam at the faces.  e is given in eighths.             *)
(* F(lam, e) is the flux, u(lam, e) the solution inside.                       *)
EXTENDS LocalSolver
\* resolvent identity:  mu . (F(lam, e2) - F(lam, e1)) = (e2 - e1) * integral of u(lam, e2) u(mu, e1)
\* inner: mean of the product over the hyperedge; all measured values in units of 1 / 64
IsResolvent(c, mu, F1, F2, e1, e2, inner) ==
  LET lhs == Sum([f \in 1..Len(mu) |-> Dot(mu[f], Sub(F2[f], F1[f]))])
      size == Sum([f \in 1..Len(mu) |-> Sum([j \in 1..Len(mu[f]) |-> Abs(mu[f][j])])]) IN
  Close(8 * lhs, (e2 - e1) * Volume(c) * inner, 8 * (size + 2) + Abs(e2 - e1) * Volume(c) + Abs(lhs) \div 100)
\* the Jacobian at (lam, e) in direction (dl, de):  F(dl, e) plus the derivative of the resolvent identity
IsJacobian(c, mu, J, Fd, de, inner) ==
  LET lhs == Sum([f \in 1..Len(mu) |-> Dot(mu[f], Sub(J[f], Fd[f]))])
      size == Sum([f \in 1..Len(mu) |-> Sum([j \in 1..Len(mu[f]) |-> Abs(mu[f][j])])]) IN
  Close(8 * lhs, de * Volume(c) * inner, 8 * (size + 2) + Abs(de) * Volume(c) + Abs(lhs) \div 100)
(* lowest order, right angles, constant coefficient *)
Weighted(c, x) == Sum([f \in 1..(2 * c.K) |-> Area(c, (f + 1) \div 2) * x[f]])
LowU(c, x, e) == <<8 * c.tau * Weighted(c, x), 8 * c.tau * Perimeter(c) - e * Volume(c)>>
LowEigs(c, kinv, x, f, e) ==
  LET d == f \div 2 + 1 s == IF f % 2 = 1 THEN 1 ELSE -1 u == LowU(c, x, e) h == Side(c, d) IN
  <<Area(c, d) * (kinv * h * c.tau * (u[1] - u[2] * x[f + 1]) - s * (x[2 * d] - x[2 * d - 1]) * u[2]), kinv * h * u[2]>>
=============================================================================
