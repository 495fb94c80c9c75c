------------------------------ MODULE LocalPlate ------------------------------
(* The local solvers of the bilaplacian family on one hyperedge: two unknowns  *)
(* u and w with -div grad u = kinv w, -div grad w = f (e u, or f - u_t), traces *)
(* of both at the faces.  The fluxes of u and w leave through the faces.  The  *)
(* remembered state (time stepping) is that of LocalStep.                      *)
EXTENDS LocalStep
FixedU(y) == y \in {1, 4}
FixedW(y) == y \in {2, 4}
NegLap(c, P, X, t, D) == -LapT(c, P, X, t, D)                              \* times 2^D TDen
PlateSolution(c, rhs) ==
  /\ Degree(c.u) <= c.p /\ Degree(c.w) <= c.p
  /\ (c.K = c.N) \/ Orthogonal(c)
  /\ \A X \in Grid(c) :
       /\ Eval(c.kinv, X, c.t, 1) > 0
       /\ NegLap(c, c.u, X, c.t, 3) = TDen(c) * Eval(c.kinv, X, c.t, 1) * Eval(c.w, X, c.t, 2)
       /\ NegLap(c, c.w, X, c.t, 3) = TDen(c) * Eval(rhs, X, c.t, 3)
PlateEvolves(c, t) ==
  LinearInTime(c.u) /\ PlateSolution(At(c, t), IF c.u = <<>> THEN c.f ELSE Minus(c.f, DerT(c.u)))
\* value (in units of 1 / S) of the flux of P through face f at its i-th point
IsFluxOf(c, P, f, i, value, S) ==
  LET X == Pt(c, FaceRef(c.K, f, i)) sgn == IF f % 2 = 1 THEN 1 ELSE -1 k == 8 * Denom(c) IN
  Close(k * value, -(S * sgn * Dot(Grad(P, X, c.t, 3, c.N), Conormal(c, f \div 2 + 1))), k)
IsValueOf(c, P, X, value, S) == Close(16 * value, S * Eval(P, X, c.t, 4), 16 + Abs(value) \div 2500)
IsDualOf(c, P, X, k, value, S) ==
  Close(8 * value, -(S * Dot(c.span[k], Grad(P, X, c.t, 3, c.N))), 8 + 8 * (Abs(value) \div 20000))
IsPlateError(c, value) ==
  LET E(r) == Eval(c.u, Pt(c, r), c.t, 4) - Eval(c.v, Pt(c, r), c.t, 4)
      mid == [k \in 1..c.K |-> 1]
      e0 == E(mid) g == [k \in 1..c.K |-> E([mid EXCEPT ![k] = 2]) - E([mid EXCEPT ![k] = 0])] IN
  Close(48 * value, Volume(c) * (12 * e0 * e0 + Dot(g, g)), 48)

(* ------------------------------------------------------ arbitrary traces   *)
\* lowest order, right angles: mean value v (in units of 1 / S), trace x (integers), flux in units of 1 / S
IsLowFlux(c, v, x, f, value, S) ==
  LET h == Side(c, f \div 2 + 1) a == Area(c, f \div 2 + 1) IN
  Close(h * value, LowLevel(c, 1, v, Scale(S, x), f), h * (1 + a * c.tau))
\* the same when the mean value is out / k
IsLowRatio(c, out, k, x, f, value, S) ==
  LET d == f \div 2 + 1 s == IF f % 2 = 1 THEN 1 ELSE -1 h == Side(c, d) a == Area(c, d) IN
  Close(k * h * value, a * (h * c.tau * (out - k * S * x[f + 1]) - k * S * s * (x[2 * d] - x[2 * d - 1])),
        k * h + a * h * c.tau * 2 * c.K)
\* curves, degree at least one: the flux of u for linear w (and for constant f if the degree is at least two)
LineOfU(c, lu, lw, f, f0, kinv) ==
  LET h == Volume(c) s == IF f % 2 = 1 THEN 1 ELSE -1 IN
  <<4 * kinv * h * h * (2 * lw[f + 1] + lw[2 - f]) + kinv * f0 * h * h * h * h - 24 * s * (lu[2] - lu[1]), 24 * h>>
\* halves of a face's unknowns
Fst(m, nb) == [f \in 1..Len(m) |-> SubSeq(m[f], 1, nb)]
Snd(m, nb) == [f \in 1..Len(m) |-> SubSeq(m[f], nb + 1, 2 * nb)]
\* mu . F for two matrices of face unknowns
Pairing(mu, F) == Sum([f \in 1..Len(mu) |-> Dot(mu[f], F[f])])
Size(mu) == Sum([f \in 1..Len(mu) |-> Sum([j \in 1..Len(mu[f]) |-> Abs(mu[f][j])])])
\* mu . (F2 - F1) = (de / 8) * integral of u_lam u_mu; inner: mean of the product
IsShift(c, mu, F1, F2, de, inner) ==
  LET lhs == Pairing(mu, F2) - Pairing(mu, F1) IN
  Close(8 * lhs, de * Volume(c) * inner, 8 * (Size(mu) + 2) + Abs(de) * Volume(c) + Abs(lhs) \div 100)
=============================================================================
