-------------------------- MODULE LocalSolverTrace --------------------------
EXTENDS LocalSolver, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Solver == IOEnv.SOLVER
Mixed == Solver # "DiffusionIP"                 \* q is an unknown of its own
Symmetric == Solver # "DiffusionIP"
VARIABLE l
vars == <<cell, l>>
Ev == Trace[l]
At(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1
S == 64
Keep == UNCHANGED cell
TraceInit == cell = [p |-> 0] /\ l = 1
Faces == 0..(2 * cell.K - 1)
NoFixed == \A f \in Faces : ~Fixed(cell.types[f + 1])
IntAt(P) == Eval(P, Centre(cell), cell.t, 0)    \* constants
TCell == At("cell") /\ cell' = [p |-> Ev.p, K |-> Ev.K, N |-> Ev.N, org |-> Ev.org, span |-> Ev.span, types |-> Ev.types,
                                tau |-> Ev.tau, t |-> Ev.t, u |-> Ev.u, kinv |-> Ev.kinv, dif |-> Ev.dif, f |-> Ev.f, v |-> Ev.v]
TFlux == At("flux") /\ Keep /\ (
  /\ Solution(cell)
  /\ Len(Ev.vals) = 2 * cell.K
  /\ \A f \in Faces : \A i \in 1..Len(Ev.vals[f + 1]) :
       IF Fixed(cell.types[f + 1]) THEN Ev.vals[f + 1][i] = 0
       ELSE IsFlux(cell, f, i - 1, Ev.vals[f + 1][i], S)) = TRUE
TTypes == At("types") /\ Keep /\ (Ev.res = [f \in 1..(2 * cell.K) |-> IF Fixed(cell.types[f]) THEN 1 ELSE 0]) = TRUE
TBulk == At("bulk") /\ Keep /\ (
  LET n == IPow(Len(Ev.at), cell.K) X(i) == Pt(cell, GridRef(cell.K, Ev.at, i - 1)) IN
  /\ Solution(cell)
  /\ Len(Ev.u) = n /\ \A i \in 1..n : IsValue(cell, X(i), Ev.u[i], S)
  /\ (Mixed => Len(Ev.q) = n) /\ \A i \in 1..Len(Ev.q) : \A k \in 1..cell.K : IsDual(cell, X(i), k, Ev.q[i][k], S)) = TRUE
TErr == At("err") /\ Keep /\ (Solution(cell) /\ Ev.n = 1 /\ IsError(cell, Ev.res)) = TRUE

Near(a, b) == \A f \in 1..Len(a) : CloseSeq(a[f], b[f], 2)
First(m) == [f \in 1..Len(m) |-> m[f][1]]       \* integrals over the faces
TAny == At("any") /\ Keep /\ (
  LET lam == First(Ev.lam) const == Constant(cell.f) /\ Constant(cell.kinv) /\ Constant(cell.dif)
      f0 == IntAt(cell.f) k == IntAt(cell.kinv) d == IntAt(cell.dif) IN
  /\ Len(Ev.hom) = 2 * cell.K /\ Len(Ev.res) = 2 * cell.K /\ Len(Ev.inh) = 2 * cell.K
  /\ \A f \in 1..(2 * cell.K) : CloseSeq(Ev.res[f], Add(Ev.hom[f], Ev.inh[f]), 2)            \* affine
  /\ \A f \in 1..(2 * cell.K) : Fixed(cell.types[f]) => \A j \in 1..Len(Ev.res[f]) : Ev.res[f][j] = 0 /\ Ev.hom[f][j] = 0
  /\ NoFixed =>
       /\ Close(Sum(First(Ev.hom)), 0, 4 * cell.K)                                            \* conservation
       /\ const => Close(Sum(First(Ev.inh)), S * f0 * Volume(cell), 4 * cell.K)
       /\ Symmetric => LET e == Sum([f \in 1..(2 * cell.K) |-> Dot(Ev.lam[f], Ev.hom[f])]) IN
            IF \A f \in 1..(2 * cell.K) : Ev.lam[f] = [Zeros(Len(Ev.lam[f])) EXCEPT ![1] = lam[1]]
            THEN Abs(e) <= 20 * (Abs(lam[1]) + 1) ELSE e < 0                                  \* dissipation
  /\ \A f \in Faces : ~Fixed(cell.types[f + 1]) =>
       /\ (const /\ cell.p = 0 /\ Boxy(cell) /\ NoFixed) => Is(LowFlux(cell, lam, f, f0, k, d, Mixed), Ev.res[f + 1][1], S)
       /\ (const /\ cell.p > 0 /\ cell.K = 1 /\ NoFixed /\ (Mixed \/ f0 = 0)) => Is(LineFlux(cell, lam, f, f0, k, d), Ev.res[f + 1][1], S)) = TRUE
TMatrix == At("matrix") /\ Keep /\ (
  LET n == 2 * cell.K * Ev.nb M == Ev.mat first == {f * Ev.nb + 1 : f \in Faces} IN
  /\ Len(M) = n /\ \A i \in 1..n : Len(M[i]) = n
  /\ \A i, j \in 1..n :                          \* row i: response to the i-th unit vector
       IF Fixed(cell.types[(j - 1) \div Ev.nb + 1]) THEN M[i][j] = 0
       ELSE /\ Symmetric /\ ~Fixed(cell.types[(i - 1) \div Ev.nb + 1]) => Close(M[i][j], M[j][i], 2)
            /\ (i = j) => M[i][i] < 0
  /\ \A j \in 1..n : ~Fixed(cell.types[(j - 1) \div Ev.nb + 1]) =>
       Close(Sum([k \in 1..(2 * cell.K) |-> M[(k - 1) * Ev.nb + 1][j]]), 0, 8)                 \* constants carry no flux
  /\ NoFixed => \A i \in 1..n : Close(Sum([k \in 1..(2 * cell.K) |-> M[i][(k - 1) * Ev.nb + 1]]), 0, 8)) = TRUE
TMass == At("mass") /\ Keep /\ (
  /\ \A f \in 1..(2 * cell.K) : CloseSeq(Ev.tot[f], Add(Ev.M[f], Ev.tot0[f]), 2)
  /\ \A f \in 1..(2 * cell.K) : Fixed(cell.types[f]) => \A j \in 1..Len(Ev.M[f]) : Ev.M[f][j] = 0 /\ Ev.mu[f][j] = 0
  /\ IsMass(cell, Ev.mu, Ev.M, Ev.inner)) = TRUE
TraceNext == TMass \/ TCell \/ TFlux \/ TTypes \/ TBulk \/ TErr \/ TAny \/ TMatrix
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
