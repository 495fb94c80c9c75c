------------------------------ MODULE LocalBeam ------------------------------
(* A Timoshenko beam: one straight edge in space with integer length L and     *)
(* direction a, displacement u, rotation phi, force n, moment m (all vectors), *)
(*   n = - C (u' + s t x phi),  n' = f_n,  m = - D phi',  m' + s t x n = f_m   *)
(* with t = a / L and a sign s which fixes the orientation of rotations.  The  *)
(* structural constants C, D (stretching, shear; torsion, bending) are 1, or   *)
(* given (cell.props, for axis-parallel beams) together with two normals.      *)
EXTENDS LocalSolver
Orient(c) == IF c.span[1][2] = 0 /\ c.span[1][3] = 0 THEN 1 ELSE -1
Dir(c) == c.span[1]
Vec3(w, X, D) == [d \in 1..3 |-> Eval(w[d], X, 0, D)]
Along1(c, w, X, D) == [d \in 1..3 |-> Dot(Dir(c), Grad(w[d], X, 0, D, 3))]
Along2(c, w, X, D) == [d \in 1..3 |-> LET H == Hess(w[d], X, 0, D, 3) IN Dot(Dir(c), [i \in 1..3 |-> Dot(H[i], Dir(c))])]
DegreeV(w) == FoldLeft(Max2, 0, [d \in 1..3 |-> Degree(w[d])])
Add3(u, v, w) == Add(u, Add(v, w))
Mul(u, v) == [d \in 1..3 |-> u[d] * v[d]]
Sq(x) == x * x
\* constants of the three coordinate directions; o = 0: C, o = 3: D
Stiff(c, o) == IF c.props = <<>> THEN <<1, 1, 1>>
               ELSE [d \in 1..3 |-> IF Dir(c)[d] # 0 THEN c.props[o + 1]
                                    ELSE c.props[o + 2] * Sq(c.props[6 + d]) + c.props[o + 3] * Sq(c.props[9 + d])]
\* L times force and moment (times 8)
Force(c, X) == Scale(-1, Mul(Stiff(c, 0), Add(Along1(c, c.u, X, 3), Scale(Orient(c), Cross(Dir(c), Vec3(c.phi, X, 3))))))
Moment(c, X) == Scale(-1, Mul(Stiff(c, 3), Along1(c, c.phi, X, 3)))
BeamSolution(c) ==
  /\ DegreeV(c.u) <= c.p /\ DegreeV(c.phi) <= c.p /\ DegreeV(c.fn) <= 3 /\ DegreeV(c.fm) <= 3
  /\ \A r \in 0..4 : LET X == Pt(c, <<r>>) a == Dir(c) s == Orient(c) LL == Dot(a, a) IN
       /\ Scale(LL, Vec3(c.fn, X, 3)) = Scale(-1, Mul(Stiff(c, 0), Add(Along2(c, c.u, X, 3), Scale(s, Cross(a, Along1(c, c.phi, X, 3))))))
       /\ Scale(LL, Vec3(c.fm, X, 3))
            = Sub(Scale(s, Cross(a, Force(c, X))), Mul(Stiff(c, 3), Along2(c, c.phi, X, 3)))
Out(f) == IF f = 1 THEN 1 ELSE -1
IsBeamFlux(c, f, vals, S) ==
  LET X == Pt(c, <<2 * f>>) q == Force(c, X) \o Moment(c, X) IN
  Len(vals) = 6 /\ \A k \in 1..6 : Close(8 * Volume(c) * vals[k], S * Out(f) * q[k], 8 * Volume(c))
\* sum over the components of the integrals of the squares of u - v, which is linear; in units of 1 / 64
IsBeamError(c, value) ==
  LET E(k, r) == Eval(c.u[k], Pt(c, <<r>>), 0, 3) - Eval(c.v[k], Pt(c, <<r>>), 0, 3)
      one(k) == 12 * E(k, 1) * E(k, 1) + (E(k, 2) - E(k, 0)) * (E(k, 2) - E(k, 0)) IN
  Close(12 * value, Volume(c) * (one(1) + one(2) + one(3)), 12)

(* Arbitrary displacements u0, u1 and rotations p0, p1 of the two ends without *)
(* loads: the force is constant, <<numerators, denominator>>.                  *)
BeamForce(a, s, u0, u1, p0, p1) ==
  LET L == Root(Dot(a, a)) du == Sub(u1, u0) IN
  <<Scale(-1, Add3(Scale(12, du), Scale(Dot(du, a), a), Scale(6 * s, Cross(a, Add(p0, p1))))), L * (12 + L * L)>>
\* moment at face f
BeamMoment(a, s, u0, u1, p0, p1, f) ==
  LET L == Root(Dot(a, a)) n == BeamForce(a, s, u0, u1, p0, p1) IN
  <<Sub(Scale(2 * (12 + L * L), Sub(p0, p1)), Scale(Out(f) * s, Cross(a, n[1]))), 2 * n[2]>>
=============================================================================
