----------------------------- MODULE LocalFlowMC -----------------------------
(* Boxes with constant data and arbitrary traces under advection and reaction. *)
EXTENDS LocalFlow
CONSTANTS MaxSide, MaxLam, MaxData
VARIABLES lam, data
vars == <<cell, lam, data>>
Line(h) == [p |-> 0, K |-> 1, N |-> 1, org |-> <<0>>, span |-> <<<<h>>>>, types |-> <<0, 0>>, tau |-> 1, t |-> 0]
Rect(h, k) == [p |-> 0, K |-> 2, N |-> 2, org |-> <<0, 0>>, span |-> <<<<h, 0>>, <<0, k>>>>, types |-> <<0, 0, 0, 0>>, tau |-> 1, t |-> 0]
Cells == {[Line(h) EXCEPT !.tau = s] : h \in 1..MaxSide, s \in 1..2}
         \cup {[Rect(h, k) EXCEPT !.tau = s] : h \in 1..MaxSide, k \in 1..MaxSide, s \in 1..2}
Init == /\ cell \in Cells /\ lam = Zeros(2 * cell.K)
        /\ data \in [f : 0..MaxData, kinv : 1..2, r : 0..MaxData, b : [1..cell.K -> 0..MaxData]]
Step == \E k \in 1..Len(lam) : lam[k] < MaxLam /\ lam' = [lam EXCEPT ![k] = @ + 1] /\ UNCHANGED <<cell, data>>
Next == Step
Spec == Init /\ [][Next]_vars
FaceSet == 0..(2 * cell.K - 1)
Flux(x, f, f0) == LowFlowFlux(cell, x, f, f0, data.kinv, data.b, data.r)
Mass(x, f) == LowFlowMass(cell, x, f, data.kinv, data.b, data.r)
Pair(d, F(_)) == LET a == F(2 * d - 2) b == F(2 * d - 1) IN <<a[1] + b[1], a[2]>>
Total(F(_)) == IF cell.K = 1 THEN Pair(1, F)
               ELSE LET a == Reduced(Pair(1, F)) b == Reduced(Pair(2, F)) IN <<a[1] * b[2] + b[1] * a[2], a[2] * b[2]>>
\* what leaves is what is supplied minus what reacts
Balance == LET s == Reduced(Total(LAMBDA f : Flux(lam, f, data.f))) m == FlowMean(cell, lam, data.f, data.r) IN
           s[1] * m[2] = s[2] * Volume(cell) * (data.f * m[2] - data.r * m[1])
MassBalance == LET s == Reduced(Total(LAMBDA f : Mass(lam, f))) m == FlowMean(cell, lam, 0, data.r)
                   d == cell.tau * Perimeter(cell) + data.r * Volume(cell) IN
               s[1] * m[2] * d = s[2] * Volume(cell) * m[1] * (d - data.r * Volume(cell))
Plus(a, b) == Reduced(<<a[1] * b[2] + b[1] * a[2], a[2] * b[2]>>)
Affine == \A f \in FaceSet : Reduced(Flux(lam, f, data.f))
            = Plus(Reduced(Flux(lam, f, 0)), Reduced(Flux(Zeros(2 * cell.K), f, data.f)))
ConstantsAreTransported ==
  data.r = 0 => \A f \in FaceSet : LET v == Flux([k \in 1..(2 * cell.K) |-> 3], f, 0) d == f \div 2 + 1 s == IF f % 2 = 1 THEN 1 ELSE -1 IN
                 v[1] * data.kinv = s * 3 * data.b[d] * Area(cell, d) * v[2]
\* without advection and reaction nothing but diffusion is left
PureDiffusion ==
  (data.r = 0 /\ data.b = Zeros(cell.K)) =>
     \A f \in FaceSet : Reduced(Flux(lam, f, data.f)) = Reduced(LowFlux(cell, lam, f, data.f, data.kinv, 1, TRUE))
=============================================================================
