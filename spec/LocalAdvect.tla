----------------------------- MODULE LocalAdvect -----------------------------
(* Advection u_t + div(v u) = f on one hyperedge of a cubic grid, scaled to a  *)
(* unit cube (theta scheme, theta in quarters).  cell.vel: one polynomial per  *)
(* coordinate, cell.fine: intervals of the grid per coordinate.                *)
(* Faces of types 1, 4 carry prescribed values, of type 2 they are outlets; at *)
(* types 3, 6 the wind decides: prescribed values where it does not blow out.  *)
EXTENDS LocalStep
Axis(c, k) == CHOOSE d \in 1..c.N : c.span[k][d] # 0
Normal(f) == IF f % 2 = 1 THEN 1 ELSE -1
FaceMid(c, f) == Pt(c, [k \in 1..c.K |-> IF k = (f \div 2) + 1 THEN 2 * (f % 2) ELSE 1])
Wind(c, f, X, t) == Normal(f) * Eval(c.vel[Axis(c, (f \div 2) + 1)], X, t, 2)             \* 4 v . nu
MidWind(c, f, t) == Wind(c, f, FaceMid(c, f), t)
Turns(type) == type \in {3, 6}
Shut(c, f, t) == Fixed(c.types[f + 1]) \/ (Turns(c.types[f + 1]) /\ MidWind(c, f, t) <= 0)
Outlet(c, f, t) == c.types[f + 1] = 2 \/ (Turns(c.types[f + 1]) /\ MidWind(c, f, t) > 0)
UnitCube(c) == \A k \in 1..c.K : Dot(c.span[k], c.span[k]) = 1 /\ \A j \in 1..c.K : j # k => Dot(c.span[j], c.span[k]) = 0
FaceGrid(c, f) == {Pt(c, FaceRef(c.K, f, i)) : i \in 0..(IPow(3, c.K - 1) - 1)}
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* the wind does not turn within a face, and does not blow out where values are prescribed for good
Steady(c, t) == \A f \in 0..(2 * c.K - 1) :
  /\ \A X \in FaceGrid(c, f) : Sign(Wind(c, f, X, t)) = Sign(MidWind(c, f, t))
  /\ Fixed(c.types[f + 1]) => MidWind(c, f, t) <= 0
\* 32 (v . grad u + u div v) at X
Transport(c, X, t) == Sum([k \in 1..c.K |-> LET d == Axis(c, k) IN
  Eval(Der(c.vel[d], d), X, t, 2) * Eval(c.u, X, t, 3) + Eval(c.vel[d], X, t, 2) * Eval(Der(c.u, d), X, t, 3)])
Fits(P, p) == \A k \in 1..Len(P) : \A d \in 1..(Len(P[k]) - 2) : P[k][d + 1] <= p
Carried(c, t) ==
  /\ UnitCube(c) /\ Steady(c, t) /\ LinearInTime(c.u) /\ Fits(c.u, c.p)
  /\ \A X \in Grid(c) : Eval(DerT(c.u), X, t, 5) + Transport(c, X, t) = Eval(c.f, X, t, 5)

(* -------------------------------------------------------- observations  *)
\* 32 v . nu u at a point of face f, unless the face takes no part in the exchange at this time
Exchange(c, f, X, t) == IF Shut(c, f, t) \/ Outlet(c, f, t) THEN 0 ELSE Wind(c, f, X, t) * Eval(c.u, X, t, 3)
IsExchange(c, f, i, t0, t1, value, S) ==
  LET X == Pt(c, FaceRef(c.K, f, i)) IN
  Close(128 * value, S * (c.theta * Exchange(c, f, X, t1) + (4 - c.theta) * Exchange(c, f, X, t0)), 128)

(* --------------------------------------- lowest order, arbitrary traces  *)
Pen(c, f) == 4 * c.tau * c.fine[Axis(c, (f \div 2) + 1)]
\* 4 times what one level (mean value u, trace x) sends through face f; m: common factor of u
Sent(c, f, t, u, m, x) == LET w == MidWind(c, f, t) IN
  IF w > 0 THEN w * u + Pen(c, f) * (u - m * x) ELSE w * m * x
\* ... and how much of it is seen by the neighbours
Seen(c, f, t, u, m, x) == LET w == MidWind(c, f, t) IN
  IF Outlet(c, f, t) THEN (IF w > 0 THEN Pen(c, f) * (u - m * x) ELSE 0) ELSE Sent(c, f, t, u, m, x)
Size(c, f, t) == Abs(MidWind(c, f, t)) + Pen(c, f)
\* what enters with prescribed values; S: unit
Given(c, f, t, S) == LET w == MidWind(c, f, t) IN IF Shut(c, f, t) /\ w < 0 THEN (w * S * Eval(c.u, FaceMid(c, f), t, 3)) \div 8 ELSE 0
Lost(c, t, u, x, S) == Sum([f \in 1..(2 * c.K) |-> Sent(c, f - 1, t, u, 1, x[f]) + Given(c, f - 1, t, S)])
SizeAll(c, t) == Sum([f \in 1..(2 * c.K) |-> Size(c, f - 1, t)])
IsLowAdvance(c, t0, t1, u0, x0, u1, x1, S) ==
  LET F(t) == (4 * S * Eval(c.f, Centre(c), t, 3)) \div 8 IN
  Close(16 * (u1 - u0), c.dt * (c.theta * (F(t1) - Lost(c, t1, u1, x1, S)) + (4 - c.theta) * (F(t0) - Lost(c, t0, u0, x0, S))),
        32 + 4 * c.dt * (SizeAll(c, t0) + SizeAll(c, t1)))
IsLowSeen(c, f, t0, t1, u0, x0, u1, x1, value) ==
  Close(16 * value, c.theta * Seen(c, f, t1, u1, 1, x1[f + 1]) + (4 - c.theta) * Seen(c, f, t0, u0, 1, x0[f + 1]),
        16 + 4 * (Size(c, f, t0) + Size(c, f, t1)))
\* response to the traces alone: mean value <<numerator, denominator>>, unit trace
Gain(c, f, t) == LET w == MidWind(c, f, t) IN IF w > 0 THEN w + Pen(c, f) ELSE 0
Feed(c, f, t) == LET w == MidWind(c, f, t) IN IF w > 0 THEN Pen(c, f) ELSE -w
Response(c, t, x) ==
  LET num == c.theta * c.dt * Sum([f \in 1..(2 * c.K) |-> Feed(c, f - 1, t) * x[f]])
      den == 16 + c.theta * c.dt * Sum([f \in 1..(2 * c.K) |-> Gain(c, f - 1, t)]) g == Gcd(den, Abs(num)) IN
  <<num \div g, den \div g>>
IsLowResponse(c, f, t, x, value, S) == LET m == Response(c, t, x) IN
  Close(m[2] * value, (S \div 16) * c.theta * Seen(c, f, t, m[1], m[2], x[f + 1]), m[2])
=============================================================================
