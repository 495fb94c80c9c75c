---------------------------- MODULE LocalSolverMC ----------------------------
(* Boxes with constant data and arbitrary traces: what the formulas promise   *)
(* (conservation, reciprocity, dissipation, exactness for linear solutions).  *)
EXTENDS LocalSolver
CONSTANTS MaxSide, MaxLam, MaxData
VARIABLES lam, data
vars == <<cell, lam, data>>
Lams(K) == [1..(2 * K) -> 0..MaxLam]
Line(h) == [p |-> 1, K |-> 1, N |-> 1, org |-> <<0>>, span |-> <<<<h>>>>, types |-> <<0, 0>>, tau |-> 1, t |-> 0]
Rect(h, k) == [p |-> 0, K |-> 2, N |-> 2, org |-> <<0, 0>>, span |-> <<<<h, 0>>, <<0, k>>>>, types |-> <<0, 0, 0, 0>>, tau |-> 1, t |-> 0]
Cells == {[Line(h) EXCEPT !.tau = s, !.p = q] : h \in 1..MaxSide, s \in 1..2, q \in 0..1}
         \cup {[Rect(h, k) EXCEPT !.tau = s] : h \in 1..MaxSide, k \in 1..MaxSide, s \in 1..2}
Init == /\ cell \in Cells /\ lam = Zeros(2 * cell.K)
        /\ data \in [f : 0..MaxData, kinv : 1..2, dif : 1..2, mixed : BOOLEAN]
Raise(k) == lam[k] < MaxLam /\ lam' = [lam EXCEPT ![k] = @ + 1] /\ UNCHANGED <<cell, data>>
Step == \E k \in 1..Len(lam) : Raise(k)
Next == Step
Spec == Init /\ [][Next]_vars

Exact1 == cell.K = 1 /\ cell.p = 1
Flux(x, f, f0) == IF Exact1 THEN LineFlux(cell, x, f, f0, data.kinv, data.dif)
                  ELSE LowFlux(cell, x, f, f0, data.kinv, data.dif, data.mixed)
FaceSet == 0..(2 * cell.K - 1)
\* all fluxes over one denominator
Den(x, f0) == Prod([f \in 1..(2 * cell.K) |-> Flux(x, f - 1, f0)[2]])
\* denominators agree for the two faces of a direction
Pair(x, d, f0) == LET a == Flux(x, 2 * d - 2, f0) b == Flux(x, 2 * d - 1, f0) IN <<a[1] + b[1], a[2]>>
Total(x, f0) == IF cell.K = 1 THEN Pair(x, 1, f0)
                ELSE LET a == Pair(x, 1, f0) b == Pair(x, 2, f0) IN <<a[1] * b[2] + b[1] * a[2], a[2] * b[2]>>
Unit(k) == [Zeros(2 * cell.K) EXCEPT ![k] = 1]
EqR(a, b) == a[1] * b[2] = b[1] * a[2]
Conservation == LET s == Total(lam, data.f) IN s[1] = data.f * Volume(cell) * s[2]
Affine == \A f \in FaceSet : LET a == Flux(lam, f, data.f) b == Flux(lam, f, 0) c == Flux(Zeros(2 * cell.K), f, data.f) IN
                             a[2] = b[2] /\ b[2] = c[2] /\ a[1] = b[1] + c[1]
Reciprocity == \A i, j \in 1..(2 * cell.K) : EqR(Flux(Unit(i), j - 1, 0), Flux(Unit(j), i - 1, 0))
ConstantsCarryNothing == \A f \in FaceSet : Flux([k \in 1..(2 * cell.K) |-> 3], f, 0)[1] = 0
\* the energy of a trace, up to a positive factor
Energy(x) == IF cell.K = 1 THEN x[1] * Flux(x, 0, 0)[1] + x[2] * Flux(x, 1, 0)[1]
             ELSE LET q(d) == x[2 * d - 1] * Flux(x, 2 * d - 2, 0)[1] + x[2 * d] * Flux(x, 2 * d - 1, 0)[1] IN
                  q(1) * Flux(x, 2, 0)[2] + q(2) * Flux(x, 0, 0)[2]
Dissipation == IF \A k \in 1..Len(lam) : lam[k] = lam[1] THEN Energy(lam) = 0 ELSE Energy(lam) < 0
\* a linear solution on a line: both descriptions agree
LinearSolution ==
  (Exact1 /\ data.f = 0) =>
    LET h == cell.span[1][1] k == <<<<data.kinv, 0, 0>>>> d == <<<<data.dif, 0, 0>>>>
        c == [p |-> 1, K |-> 1, N |-> 1, org |-> <<0>>, span |-> cell.span, types |-> <<0, 0>>, tau |-> cell.tau, t |-> 0,
              u |-> <<<<h * lam[1], 0, 0>>, <<lam[2] - lam[1], 1, 0>>>>, kinv |-> k, dif |-> d, f |-> <<>>, v |-> <<>>]
        v(f) == LineFlux(c, <<h * lam[1], h * lam[2]>>, f, 0, data.kinv, data.dif) IN
    /\ Solution(c)
    /\ \A f \in 0..1 : LET S == v(f)[2] IN IsFlux(c, f, 0, v(f)[1], S)
=============================================================================
