------------------------------ MODULE LocalStep ------------------------------
(* Time stepping on one hyperedge (theta scheme): the hyperedge remembers the  *)
(* state of its last time; a step relates the remembered state and the trace   *)
(* at the next time.  theta is given in quarters.                              *)
EXTENDS LocalSolver
VARIABLES old,      \* time of the remembered state, -1 if there is none
          smooth,   \* the remembered state is the exact solution
          mass,     \* weighted sum of the remembered values (see Weighted), in units of 1 / 64
          tr        \* remembered trace (one value per face, in units of 1 / 64)
svars == <<cell, old, smooth, mass, tr>>
NoTime == -1

At(c, t) == [c EXCEPT !.t = t]
Weight(K, i) == Prod([k \in 1..K |-> IF Digit(i, k) = 1 THEN 4 ELSE 1])
\* Simpson's rule: the integral is Volume * Weighted / 6^K (exact up to degree three)
Weighted(K, vals) == Sum([i \in 1..Len(vals) |-> Weight(K, i - 1) * vals[i]])
Values(c, P, t) == [i \in 1..IPow(3, c.K) |-> 8 * Eval(P, Pt(c, BulkRef(c.K, i - 1)), t, 3)]
MassOf(c, P, t) == Weighted(c.K, Values(c, P, t))

\* u_t + div q = f at all points of the grid (u linear in time)
DerT(P) == LET n == Len(P[1]) Q == SelectSeq(P, LAMBDA m : m[Len(m)] > 0) IN
           [k \in 1..Len(Q) |-> [Q[k] EXCEPT ![1] = @ * Q[k][n], ![n] = @ - 1]]
Minus(P, Q) == P \o [k \in 1..Len(Q) |-> [Q[k] EXCEPT ![1] = -@]]
LinearInTime(P) == \A k \in 1..Len(P) : P[k][Len(P[k])] <= 1
Evolves(c, t) ==
  /\ LinearInTime(c.u)
  /\ Solution([c EXCEPT !.t = t, !.f = IF c.u = <<>> THEN c.f ELSE Minus(c.f, DerT(c.u))])

(* ------------------------------------------------------------- actions  *)
TraceOf(c, t) == [f \in 1..(2 * c.K) |-> 8 * Eval(c.u, Pt(c, FaceRef(c.K, f - 1, 0)), t, 3)]
Start(c) == cell' = c /\ old' = NoTime /\ smooth' = FALSE /\ mass' = 0 /\ tr' = <<>>
Initial(t) == old' = t /\ smooth' = TRUE /\ mass' = MassOf(cell, cell.u, t) /\ tr' = TraceOf(cell, t) /\ UNCHANGED cell
Next_(t) == old # NoTime /\ t = old + cell.dt
Advance(t) == Next_(t) /\ old' = t /\ smooth' = smooth /\ mass' = MassOf(cell, cell.u, t) /\ tr' = TraceOf(cell, t) /\ UNCHANGED cell
Leave(t, w, x) == Next_(t) /\ old' = t /\ smooth' = FALSE /\ mass' = w /\ tr' = x /\ UNCHANGED cell

(* -------------------------------------------------------- observations  *)
\* the flux of the step through face f is theta flux(t) + (1 - theta) flux(old)
IsStepFlux(c, f, i, t0, t1, value, S) ==
  LET X == Pt(c, FaceRef(c.K, f, i)) sgn == IF f % 2 = 1 THEN 1 ELSE -1
      k0 == Eval(c.kinv, X, t0, 1) k1 == Eval(c.kinv, X, t1, 1) g == Gcd(k0, k1)
      N(t) == -(sgn * Eval(c.dif, X, t, 1) * Dot(Grad(c.u, X, t, 2, c.N), Conormal(c, f \div 2 + 1)))
      den == 16 * (k0 \div g) * k1 * Denom(c) IN
  Close(den * value, S * (c.theta * N(t1) * (k0 \div g) + (4 - c.theta) * N(t0) * (k1 \div g)), den)
IsStoredError(c, t0, t, value) ==
  LET E(r) == Eval(c.u, Pt(c, r), t0, 3) - Eval(c.v, Pt(c, r), t, 3)
      mid == [k \in 1..c.K |-> 1]
      e0 == E(mid) g == [k \in 1..c.K |-> E([mid EXCEPT ![k] = 2]) - E([mid EXCEPT ![k] = 0])] IN
  Close(12 * value, Volume(c) * (12 * e0 * e0 + Dot(g, g)), 12)
\* what has flown out over a step equals what is missing; res: integrals of the fluxes over the faces
Balanced(c, w0, w1, t0, t1, res) ==
  LET V == Volume(c) s == IPow(6, c.K)
      F == c.theta * MassOf(c, c.f, t1) + (4 - c.theta) * MassOf(c, c.f, t0) IN
  Close(4 * V * (w1 - w0), c.dt * (V * F - 4 * s * Sum(res)), 4 * s * (2 * V + c.dt * (2 * c.K + 1)))
\* Lowest order, right angles, constant coefficient: the flux of one time level through face f
\* (times kinv * side); u: mean value, x: trace
LowLevel(c, kinv, u, x, f) ==
  LET d == f \div 2 + 1 s == IF f % 2 = 1 THEN 1 ELSE -1 IN
  Area(c, d) * (-(s * (x[2 * d] - x[2 * d - 1])) + kinv * Side(c, d) * c.tau * (u - x[f + 1]))
IsLowStep(c, kinv, u0, x0, u1, x1, f, value) ==
  LET h == Side(c, f \div 2 + 1) a == Area(c, f \div 2 + 1) IN
  Close(4 * kinv * h * value, c.theta * LowLevel(c, kinv, u1, x1, f) + (4 - c.theta) * LowLevel(c, kinv, u0, x0, f),
        4 * kinv * h * (1 + a * c.tau))
=============================================================================
