---------------------------- MODULE LocalPlateMC ----------------------------
(* Boxes, constant data, arbitrary traces of u and w: what the formulas of     *)
(* LocalPlate promise, in exact arithmetic.                                    *)
EXTENDS LocalPlate
CONSTANTS MaxSide, MaxLam
VARIABLES lu, lw, kinv, f0
vars == <<cell, old, smooth, mass, tr, lu, lw, kinv, f0>>
Line(h) == [p |-> 1, K |-> 1, N |-> 1, org |-> <<0>>, span |-> <<<<h>>>>, tau |-> 1, theta |-> 4, dt |-> 1]
Rect(h, k) == [p |-> 0, K |-> 2, N |-> 2, org |-> <<0, 0>>, span |-> <<<<h, 0>>, <<0, k>>>>, tau |-> 1, theta |-> 4, dt |-> 1]
Cells == {[Line(h) EXCEPT !.tau = s, !.p = q] : h \in 1..MaxSide, s \in 1..2, q \in 0..1}
         \cup {[Rect(h, k) EXCEPT !.tau = s] : h \in 1..MaxSide, k \in 1..MaxSide, s \in 1..2}
Init == /\ cell \in Cells /\ lu = Zeros(2 * cell.K) /\ lw = lu /\ kinv \in 1..2 /\ f0 \in 0..1
        /\ old = NoTime /\ smooth = FALSE /\ mass = 0 /\ tr = <<>>
RaiseU == \E k \in 1..Len(lu) : lu[k] < 1 /\ lu' = [lu EXCEPT ![k] = @ + 1] /\ UNCHANGED <<svars, lw, kinv, f0>>
RaiseW == \E k \in 1..Len(lw) : lw[k] < MaxLam /\ lw' = [lw EXCEPT ![k] = @ + 1] /\ UNCHANGED <<svars, lu, kinv, f0>>
Next == RaiseU \/ RaiseW
Spec == Init /\ [][Next]_vars

Curve == cell.K = 1 /\ cell.p = 1
\* mean of u when the mean of w is m
MeanU(x, m) == <<cell.tau * m[2] * Sum([f \in 1..(2 * cell.K) |-> Area(cell, (f + 1) \div 2) * x[f]]) + kinv * Volume(cell) * m[1],
                 cell.tau * Perimeter(cell) * m[2]>>
LowU(x, y, f, g) ==
  LET d == f \div 2 + 1 s == IF f % 2 = 1 THEN 1 ELSE -1 h == Side(cell, d) m == MeanU(x, Mean(cell, y, g)) IN
  <<Area(cell, d) * (h * cell.tau * (m[1] - m[2] * x[f + 1]) - s * (x[2 * d] - x[2 * d - 1]) * m[2]), h * m[2]>>
FU(x, y, f, g) == IF Curve THEN LineOfU(cell, x, y, f, g, kinv) ELSE LowU(x, y, f, g)
FW(y, f, g) == IF Curve THEN LineFlux(cell, y, f, g, 1, 1) ELSE LowFlux(cell, y, f, g, 1, 1, TRUE)
Nf == 2 * cell.K
Unit(k) == [Zeros(Nf) EXCEPT ![k] = 1]
Zero == Zeros(Nf)
Norm(a) == LET g == Gcd(Abs(a[1]), Abs(a[2])) IN <<a[1] \div g, a[2] \div g>>
EqR(a, b) == Norm(a) = Norm(b)
PlusR(a, b) == LET x == Norm(a) y == Norm(b) g == Gcd(x[2], y[2]) IN
               Norm(<<x[1] * (y[2] \div g) + y[1] * (x[2] \div g), x[2] * (y[2] \div g)>>)
TotalW == LET q(d) == PlusR(FW(lw, 2 * d - 2, f0), FW(lw, 2 * d - 1, f0)) IN IF cell.K = 1 THEN q(1) ELSE PlusR(q(1), q(2))
ConservationW == TotalW[1] = f0 * Volume(cell) * TotalW[2]
\* the fluxes of u add up to kinv times the integral of w
ConservationU ==
  IF Curve THEN LET s == PlusR(FU(lu, lw, 0, 0), FU(lu, lw, 1, 0)) IN 2 * s[1] = kinv * Volume(cell) * (lw[1] + lw[2]) * s[2]
  ELSE LET m == Mean(cell, lw, f0) IN
       \A d \in 1..cell.K : LET s == FU(lu, lw, 2 * d - 2, f0) t == FU(lu, lw, 2 * d - 1, f0) u == MeanU(lu, m)
                            IN s[2] = t[2] /\ s[1] + t[1] = Area(cell, d) * Side(cell, d) * cell.tau * (2 * u[1] - u[2] * (lu[2 * d - 1] + lu[2 * d]))
\* u reacts to w as w to u, and to its own trace as w does
Reciprocity == (lu = Zero /\ lw = Zero) => \A i, j \in 1..Nf :
  /\ EqR(FU(Zero, Unit(i), j - 1, 0), FU(Zero, Unit(j), i - 1, 0))
  /\ EqR(FU(Unit(i), Zero, j - 1, 0), FW(Unit(j), i - 1, 0))
Additive == \A f \in 0..(Nf - 1) :
  EqR(FU(lu, lw, f, f0), PlusR(FU(lu, Zero, f, 0), PlusR(FU(Zero, lw, f, 0), FU(Zero, Zero, f, f0))))
ConstantsCarryNothing == (lw = Zero) => \A f \in 0..(Nf - 1) : FU([k \in 1..Nf |-> 1], Zero, f, 0)[1] = 0
=============================================================================
