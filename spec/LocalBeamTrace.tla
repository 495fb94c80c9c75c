--------------------------- MODULE LocalBeamTrace ---------------------------
EXTENDS LocalBeam, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<cell, l>>
Ev == Trace[l]
At(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1
S == 64
Keep == UNCHANGED cell
TraceInit == cell = [p |-> 0] /\ l = 1
NoFixed == ~Fixed(cell.types[1]) /\ ~Fixed(cell.types[2])
At0(w) == Vec3(w, Centre(cell), 0)               \* constants
TCell == At("cell") /\ cell' = [p |-> Ev.p, K |-> 1, N |-> 3, org |-> Ev.org, span |-> Ev.span, types |-> Ev.types, tau |-> Ev.tau,
                                t |-> 0, u |-> Ev.u, phi |-> Ev.phi, fn |-> Ev.fn, fm |-> Ev.fm, v |-> Ev.v, props |-> Ev.props]
TFlux == At("flux") /\ Keep /\ (
  /\ BeamSolution(cell)
  /\ Len(Ev.vals) = 2
  /\ \A f \in 0..1 : IF Fixed(cell.types[f + 1]) THEN Ev.vals[f + 1] = Zeros(6) ELSE IsBeamFlux(cell, f, Ev.vals[f + 1], S)) = TRUE
TBulk == At("bulk") /\ Keep /\ (
  /\ BeamSolution(cell)
  /\ Len(Ev.u) = 3
  /\ \A k \in 1..3 : Len(Ev.u[k]) = 3 /\ \A r \in 0..2 :
       Close(8 * Ev.u[k][r + 1], S * Eval(cell.u[k], Pt(cell, <<r>>), 0, 3), 8 + Abs(Ev.u[k][r + 1]) \div 5000)) = TRUE
TErr == At("err") /\ Keep /\ (BeamSolution(cell) /\ Ev.n = 1 /\ IsBeamError(cell, Ev.res)) = TRUE
U(x) == SubSeq(x, 1, 3)
R(x) == SubSeq(x, 4, 6)
\* constant loads from here on
TAny == At("any") /\ Keep /\ (
  LET fn == At0(cell.fn) fm == At0(cell.fm) L == Volume(cell) s == Orient(cell) a == Dir(cell)
      X0 == cell.org X1 == Add(cell.org, a) o0 == Ev.res[1] o1 == Ev.res[2] h0 == Ev.hom[1] h1 == Ev.hom[2] IN
  /\ Len(Ev.hom) = 2 /\ Len(Ev.res) = 2 /\ Len(Ev.inh) = 2
  /\ \A f \in 1..2 : Len(Ev.res[f]) = 6 /\ CloseSeq(Ev.res[f], Add(Ev.hom[f], Ev.inh[f]), 2)
  /\ \A f \in 1..2 : Fixed(cell.types[f]) => Ev.res[f] = Zeros(6) /\ Ev.hom[f] = Zeros(6)
  \* equilibrium of forces and of moments
  /\ NoFixed => CloseSeq(Add(U(o0), U(o1)), Scale(S * L, fn), 4)
  /\ NoFixed /\ cell.p >= 1 =>
       LET tol == 4 + 2 * FoldLeft(Max2, 0, [d \in 1..3 |-> Max2(Abs(X0[d]), Abs(X1[d]))]) IN
       CloseSeq(Scale(2, Add(Add(R(o0), R(o1)), Scale(s, Add(Cross(X0, U(o0)), Cross(X1, U(o1)))))),
                Scale(S * L, Add(Scale(2, fm), Scale(s, Cross(Add(X0, X1), fn)))), 4 * tol)
  /\ NoFixed => LET w == Dot(Ev.lam[1], h0) + Dot(Ev.lam[2], h1) IN w <= 60
  /\ NoFixed /\ cell.p >= 3 /\ cell.props = <<>> =>
       LET u0 == U(Ev.lam[1]) u1 == U(Ev.lam[2]) p0 == R(Ev.lam[1]) p1 == R(Ev.lam[2]) n == BeamForce(a, s, u0, u1, p0, p1) IN
       \A f \in 0..1 : LET m == BeamMoment(a, s, u0, u1, p0, p1, f) IN
         \A k \in 1..3 : /\ Is(<<Out(f) * n[1][k], n[2]>>, Ev.hom[f + 1][k], S)
                         /\ Is(<<Out(f) * m[1][k], m[2]>>, Ev.hom[f + 1][3 + k], S)) = TRUE
TMatrix == At("matrix") /\ Keep /\ (
  LET M == Ev.mat IN
  /\ Len(M) = 12 /\ \A i \in 1..12 : Len(M[i]) = 12
  /\ \A i, j \in 1..12 :
       IF Fixed(cell.types[(j - 1) \div 6 + 1]) THEN M[i][j] = 0
       ELSE ~Fixed(cell.types[(i - 1) \div 6 + 1]) => Close(M[i][j], M[j][i], 2)) = TRUE
TraceNext == TCell \/ TFlux \/ TBulk \/ TErr \/ TAny \/ TMatrix
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
