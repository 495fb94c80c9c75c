------------------------------ MODULE LocalFlow ------------------------------
(* Diffusion, advection and reaction on one hyperedge:                         *)
(*   kinv q = - grad u + b u,   div q + c u = f,   u = trace at the faces.     *)
(* The cell carries b and q (cell.flow) as sequences of polynomials.           *)
EXTENDS LocalSolver
\* tangential divergence of a vector field, times 2^D TDen
DivT(c, w, X, t, D) ==
  IF c.K = c.N THEN Sum([d \in 1..c.N |-> Eval(Der(w[d], d), X, t, D)])
  ELSE Sum([k \in 1..c.K |-> (TDen(c) \div Dot(c.span[k], c.span[k]))
              * Sum([d \in 1..c.N |-> Sum([e \in 1..c.N |-> IF c.span[k][d] * c.span[k][e] = 0 THEN 0 ELSE
                                             c.span[k][d] * c.span[k][e] * Eval(Der(w[d], e), X, t, D)])])])
Vec(w, X, t, D) == [d \in 1..Len(w) |-> Eval(w[d], X, t, D)]
DegreeV(w) == FoldLeft(Max2, 0, [d \in 1..Len(w) |-> Degree(w[d])])
FlowSolution(c) ==
  /\ Degree(c.u) <= c.p /\ DegreeV(c.flow) <= c.p
  /\ (c.K = c.N) \/ Orthogonal(c)
  /\ \A X \in Grid(c) :
       /\ Eval(c.kinv, X, c.t, 1) > 0
       \* 32 times both sides
       /\ \A k \in 1..c.K : Eval(c.kinv, X, c.t, 2) * Dot(c.span[k], Vec(c.flow, X, c.t, 3))
            = Dot(c.span[k], Sub(Scale(Eval(c.u, X, c.t, 3), Vec(c.b, X, c.t, 2)), Grad(c.u, X, c.t, 5, c.N)))
       /\ DivT(c, c.flow, X, c.t, 4) + TDen(c) * Eval(c.c, X, c.t, 1) * Eval(c.u, X, c.t, 3) = TDen(c) * Eval(c.f, X, c.t, 4)
IsFlowFlux(c, f, i, value, S) ==
  LET X == Pt(c, FaceRef(c.K, f, i)) sgn == IF f % 2 = 1 THEN 1 ELSE -1 IN
  Close(8 * Denom(c) * value, S * sgn * Dot(Vec(c.flow, X, c.t, 3), Conormal(c, f \div 2 + 1)), 8 * Denom(c))
IsFlowDual(c, X, k, value, S) ==
  Close(8 * value, S * Dot(c.span[k], Vec(c.flow, X, c.t, 3)), 8 + 8 * (Abs(value) \div 20000))
Reduced(q) == LET g == Gcd(Abs(q[2]), Abs(q[1])) IN <<q[1] \div g, q[2] \div g>>          \* denominators are positive
(* lowest order, right angles, constant data: b is a vector, r the reaction rate *)
FlowMean(c, lam, f0, r) == Reduced(
  <<c.tau * Sum([f \in 1..(2 * c.K) |-> Area(c, (f + 1) \div 2) * lam[f]]) + f0 * Volume(c), c.tau * Perimeter(c) + r * Volume(c)>>)
\* what a local solution with mean m[1] / m[2] and jump j (of the traces in direction d) sends through face f with trace x
FlowThrough(c, m, j, x, f, kinv, b) ==
  LET d == f \div 2 + 1 s == IF f % 2 = 1 THEN 1 ELSE -1 h == Side(c, d) IN
  <<Area(c, d) * (s * (Dot(b, c.span[d]) * m[1] - j * m[2]) + kinv * h * c.tau * (m[1] - m[2] * x)), kinv * h * m[2]>>
LowFlowFlux(c, lam, f, f0, kinv, b, r) ==
  LET d == f \div 2 + 1 IN FlowThrough(c, FlowMean(c, lam, f0, r), lam[2 * d] - lam[2 * d - 1], lam[f + 1], f, kinv, b)
\* mass flux: the response to the source u(lam) with zero traces
LowFlowMass(c, lam, f, kinv, b, r) ==
  LET m == FlowMean(c, lam, 0, r) IN FlowThrough(c, Reduced(<<m[1] * Volume(c), m[2] * (c.tau * Perimeter(c) + r * Volume(c))>>), 0, 0, f, kinv, b)
=============================================================================
