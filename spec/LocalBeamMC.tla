----------------------------- MODULE LocalBeamMC -----------------------------
(* The closed formulas of a beam without loads: equilibrium, reciprocity,      *)
(* rigid motions, dissipation.                                                 *)
EXTENDS LocalBeam
CONSTANTS MaxVal, Moves
VARIABLES a, s, ends                        \* ends: u0, u1, p0, p1 after each other, each shifted by -1
vars == <<cell, a, s, ends>>
Dirs == {<<1, 0, 0>>, <<0, 2, 0>>, <<0, 0, 3>>, <<2, 1, 2>>, <<0, 3, 4>>, <<2, 3, 6>>}
Init == cell = 0 /\ a \in Dirs /\ s \in {0, 2} /\ ends = Zeros(12)
Step == \E k \in 1..12 : ends[k] < MaxVal /\ Sum(ends) < Moves /\ ends' = [ends EXCEPT ![k] = @ + 1] /\ UNCHANGED <<cell, a, s>>
Next == Step
Spec == Init /\ [][Next]_vars
Sg == s - 1
U0(e) == SubSeq(e, 1, 3)
U1(e) == SubSeq(e, 4, 6)
P0(e) == SubSeq(e, 7, 9)
P1(e) == SubSeq(e, 10, 12)
Fo(e) == BeamForce(a, Sg, U0(e), U1(e), P0(e), P1(e))
Mo(e, f) == BeamMoment(a, Sg, U0(e), U1(e), P0(e), P1(e), f)
\* outward forces and moments of both ends over the common denominator
Answer(e) == LET n == Scale(2, Fo(e)[1]) IN Scale(-1, n) \o n \o Scale(-1, Mo(e, 0)[1]) \o Mo(e, 1)[1]
\* the moments about the origin, with the beam going from 0 to a
Equilibrium == LET w == Answer(ends) IN
  /\ Add(U0(w), U1(w)) = Zeros(3)
  /\ Add3(P0(w), P1(w), Scale(Sg, Cross(a, U1(w)))) = Zeros(3)
Unit(k) == [j \in 1..12 |-> IF j = k THEN 1 ELSE 0]
Reciprocity == \A k \in 1..12 : Dot(ends, Answer(Unit(k))) = Dot(Unit(k), Answer(ends))
Dissipation == Dot(ends, Answer(ends)) <= 0
\* displacement c + s x x r together with the rotation r: no forces.  (u' + s t x phi = 0)
RigidMotion == LET c0 == U0(ends) r == P0(ends) IN
  Answer(c0 \o Sub(c0, Scale(Sg, Cross(a, r))) \o r \o r) = Zeros(12)
Stretch == LET e == Zeros(3) \o a \o Zeros(6) L == Root(Dot(a, a)) n == Fo(e) IN
  Scale(L, n[1]) = Scale(-n[2], a) /\ Mo(e, 0)[1] = Zeros(3) /\ Mo(e, 1)[1] = Zeros(3)
=============================================================================
