----------------------------- MODULE LocalSolver -----------------------------
(* One hyperedge (a parallelepiped with integer corners) and the local solvers *)
(* of the diffusion family: div q = f, kinv q = - dif grad u, u = trace at the *)
(* faces.  Polynomials are sequences of monomials <<c, e_1, ..., e_N, e_t>>;   *)
(* points are given by doubled coordinates, values of polynomials are scaled   *)
(* by powers of two, so that everything is an integer.                         *)
EXTENDS VUtil
VARIABLE cell

Mono(m, X, t, D) ==
  LET n == Len(m) - 2 deg == Sum([d \in 1..n |-> m[d + 1]]) IN
  m[1] * Prod([d \in 1..n |-> IPow(X[d], m[d + 1])]) * IPow(2, D - deg) * IPow(t, m[n + 2])
Eval(P, X, t, D) == Sum([k \in 1..Len(P) |-> Mono(P[k], X, t, D)])       \* 2^D P(X / 2, t)
Degree(P) == Sum(<<0>> \o <<FoldLeft(Max2, 0, [k \in 1..Len(P) |-> Sum([d \in 1..(Len(P[k]) - 2) |-> P[k][d + 1]])])>>)
Der(P, d) == LET Q == SelectSeq(P, LAMBDA m : m[d + 1] > 0) IN
             [k \in 1..Len(Q) |-> [Q[k] EXCEPT ![1] = @ * Q[k][d + 1], ![d + 1] = @ - 1]]
Grad(P, X, t, D, N) == [d \in 1..N |-> Eval(Der(P, d), X, t, D)]
Dot(u, v) == Sum([k \in 1..Len(u) |-> u[k] * v[k]])
Scale(c, u) == [k \in 1..Len(u) |-> c * u[k]]
Sub(u, v) == [k \in 1..Len(u) |-> u[k] - v[k]]
Root(s) == CHOOSE r \in 0..2000 : r * r = s
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>

(* ------------------------------------------------------------- geometry  *)
Digit(i, k) == (i \div IPow(3, k - 1)) % 3                               \* k-th digit to base 3
BulkRef(K, i) == [k \in 1..K |-> Digit(i, k)]
\* i-th point of the grid with the (doubled) abscissas at
GridRef(K, at, i) == [k \in 1..K |-> at[((i \div IPow(Len(at), k - 1)) % Len(at)) + 1]]
FaceRef(K, f, i) == LET d == f \div 2 + 1 IN
  [k \in 1..K |-> IF k = d THEN 2 * (f % 2) ELSE Digit(i, IF k < d THEN k ELSE k - 1)]
Pt(c, r) == [d \in 1..c.N |-> 2 * c.org[d] + Sum([k \in 1..c.K |-> r[k] * c.span[k][d]])]
Centre(c) == Pt(c, [k \in 1..c.K |-> 1])
Others(c, d) == SelectSeq([k \in 1..c.K |-> k], LAMBDA k : k # d)
\* face area times outer normal of the second face in direction d is Conormal / Denom
Conormal(c, d) ==
  LET a == c.span[d] o == Others(c, d) IN
  CASE c.K = 1 -> a
    [] c.K = 2 -> LET b == c.span[o[1]] IN Sub(Scale(Dot(b, b), a), Scale(Dot(a, b), b))
    [] c.K = 3 -> LET w == Cross(c.span[o[1]], c.span[o[2]]) IN IF Dot(w, a) > 0 THEN w ELSE Scale(-1, w)
Volume(c) ==
  CASE c.K = 1 -> Root(Dot(c.span[1], c.span[1]))
    [] c.K = 2 -> Root(Dot(c.span[1], c.span[1]) * Dot(c.span[2], c.span[2]) - Dot(c.span[1], c.span[2]) * Dot(c.span[1], c.span[2]))
    [] c.K = 3 -> Abs(Dot(Cross(c.span[1], c.span[2]), c.span[3]))
Denom(c) == IF c.K = 3 THEN 1 ELSE Volume(c)
Orthogonal(c) == \A j, k \in 1..c.K : j # k => Dot(c.span[j], c.span[k]) = 0
IsSquare(s) == \E r \in 0..60 : r * r = s
Boxy(c) == Orthogonal(c) /\ \A k \in 1..c.K : IsSquare(Dot(c.span[k], c.span[k]))    \* right angles, integer sides
Side(c, k) == Root(Dot(c.span[k], c.span[k]))
Area(c, d) == Prod([k \in 1..Len(Others(c, d)) |-> Side(c, Others(c, d)[k])])      \* right angles only
Fixed(type) == type \in {1, 4}                                           \* Dirichlet types of the parameters

(* --------------------------------------------------- polynomial solutions  *)
\* tangential form g . h, times TDen
TDen(c) == IF c.K = c.N THEN 1 ELSE Prod([k \in 1..c.K |-> Dot(c.span[k], c.span[k])])
TForm(c, g, h) == IF c.K = c.N THEN Dot(g, h)
                  ELSE Sum([k \in 1..c.K |-> (TDen(c) \div Dot(c.span[k], c.span[k])) * Dot(c.span[k], g) * Dot(c.span[k], h)])
Hess(P, X, t, D, N) == [i \in 1..N |-> Grad(Der(P, i), X, t, D, N)]
\* tangential Laplacian, times 2^D TDen
LapT(c, P, X, t, D) ==
  LET H == Hess(P, X, t, D, c.N) IN
  IF c.K = c.N THEN Sum([i \in 1..c.N |-> H[i][i]])
  ELSE Sum([k \in 1..c.K |-> (TDen(c) \div Dot(c.span[k], c.span[k]))
                             * Dot(c.span[k], [i \in 1..c.N |-> Dot(H[i], c.span[k])])])
Constant(P) == Degree(P) = 0
Grid(c) == {Pt(c, BulkRef(c.K, i)) : i \in 0..(IPow(3, c.K) - 1)}
\* u solves the equation on this hyperedge and lies in the polynomial space
Solution(c) ==
  /\ Degree(c.u) <= c.p
  /\ (c.K = c.N) \/ Orthogonal(c)
  /\ \A X \in Grid(c) : Eval(c.kinv, X, c.t, 1) > 0
  /\ IF Constant(c.kinv)
     THEN \A X \in Grid(c) :
            LET g == Grad(c.u, X, c.t, 2, c.N) dg == Grad(c.dif, X, c.t, 0, c.N) IN
            TDen(c) * Eval(c.kinv, X, c.t, 0) * Eval(c.f, X, c.t, 3) =
            -(Eval(c.dif, X, c.t, 1) * LapT(c, c.u, X, c.t, 2) + 2 * TForm(c, dg, g))
     ELSE /\ Constant(c.dif) /\ \A X \in Grid(c) : Eval(c.f, X, c.t, 1) = 0
          /\ LET X0 == Pt(c, [k \in 1..c.K |-> 0]) IN
             \A X \in Grid(c) : \A k \in 1..c.K :
               Dot(c.span[k], Grad(c.u, X, c.t, 2, c.N)) * Eval(c.kinv, X0, c.t, 1) =
               Dot(c.span[k], Grad(c.u, X0, c.t, 2, c.N)) * Eval(c.kinv, X, c.t, 1)
\* value (in units of 1 / S) of the outward flux through face f at its i-th point
IsFlux(c, f, i, value, S) ==
  LET X == Pt(c, FaceRef(c.K, f, i)) k == 4 * Eval(c.kinv, X, c.t, 1) * Denom(c)
      sgn == IF f % 2 = 1 THEN 1 ELSE -1 IN
  Close(k * value, -(S * sgn * Eval(c.dif, X, c.t, 1) * Dot(Grad(c.u, X, c.t, 2, c.N), Conormal(c, f \div 2 + 1))), k)
IsValue(c, X, value, S) == Close(8 * value, S * Eval(c.u, X, c.t, 3), 8 + Abs(value) \div 5000)
\* component of the flux along a spanning vector
IsDual(c, X, k, value, S) ==
  LET q == 4 * Eval(c.kinv, X, c.t, 1) IN
  Close(q * value, -(S * Eval(c.dif, X, c.t, 1) * Dot(c.span[k], Grad(c.u, X, c.t, 2, c.N))), q + q * (Abs(value) \div 20000))
\* integral of the square of u - v, which is linear; value in units of 1 / 64
IsError(c, value) ==
  LET E(r) == Eval(c.u, Pt(c, r), c.t, 3) - Eval(c.v, Pt(c, r), c.t, 3)
      mid == [k \in 1..c.K |-> 1]
      e0 == E(mid) g == [k \in 1..c.K |-> E([mid EXCEPT ![k] = 2]) - E([mid EXCEPT ![k] = 0])] IN
  Close(12 * value, Volume(c) * (12 * e0 * e0 + Dot(g, g)), 12)

(* ------------------------------------------------------ arbitrary traces   *)
\* Rational numbers <<numerator, denominator>>.
\* Lowest order, right angles, constant data: lam[f + 1] is the value at face f.
Perimeter(c) == 2 * Sum([d \in 1..c.K |-> Area(c, d)])
Mean(c, lam, f0) ==
  <<c.tau * Sum([f \in 1..(2 * c.K) |-> Area(c, (f + 1) \div 2) * lam[f]]) + f0 * Volume(c), c.tau * Perimeter(c)>>
\* flux through face f: area (+- q_d + tau (mean - lam)); mixed: the method has an own unknown q
LowFlux(c, lam, f, f0, kinv, dif, mixed) ==
  LET d == f \div 2 + 1 s == IF f % 2 = 1 THEN 1 ELSE -1 h == Side(c, d) m == Mean(c, lam, f0)
      jump == IF mixed THEN -(s * dif * (lam[2 * d] - lam[2 * d - 1])) ELSE 0 IN
  <<Area(c, d) * (jump * m[2] + kinv * h * c.tau * (m[1] - m[2] * lam[f + 1])), kinv * h * m[2]>>
\* Curves, degree at least one, constant data: exact for all traces
LineFlux(c, lam, f, f0, kinv, dif) ==
  LET h == Volume(c) s == IF f % 2 = 1 THEN 1 ELSE -1 IN
  <<f0 * h * h * kinv - 2 * s * dif * (lam[2] - lam[1]), 2 * h * kinv>>
\* mass flux:  mu . M(lam) = integral of u(lam) u(mu); inner is the mean of the product; all in units of 1 / 64
IsMass(c, mu, M, inner) ==
  LET lhs == Sum([f \in 1..Len(mu) |-> Dot(mu[f], M[f])])
      size == Sum([f \in 1..Len(mu) |-> Sum([j \in 1..Len(mu[f]) |-> Abs(mu[f][j])])]) IN
  Close(lhs, Volume(c) * inner, size + 2 + Volume(c) + Abs(lhs) \div 100)
Is(rat, value, S) == Close(rat[2] * value, S * rat[1], rat[2])
=============================================================================
