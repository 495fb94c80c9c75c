--------------------------- MODULE LocalEigsTrace ---------------------------
EXTENDS LocalEigs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<cell, l>>
Ev == Trace[l]
At(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1
S == 64
Keep == UNCHANGED cell
TraceInit == cell = [p |-> 0] /\ l = 1
Faces == 0..(2 * cell.K - 1)
Solid(f) == Fixed(cell.types[f + 1])
NoFixed == \A f \in Faces : ~Solid(f)
First(m) == [f \in 1..Len(m) |-> m[f][1]]
Void(m) == Len(m) = 2 * cell.K /\ \A f \in Faces : Solid(f) => \A j \in 1..Len(m[f + 1]) : m[f + 1][j] = 0
Low == cell.p = 0 /\ Boxy(cell) /\ Constant(cell.kinv)
IsLow(lam, F, e) == Low => \A f \in Faces : ~Solid(f) =>
  LET r == LowEigs(cell, Eval(cell.kinv, Centre(cell), 0, 0), First(lam), f, e) IN
  Close(r[2] * F[f + 1][1], S * r[1], Abs(r[2]))
TCell == At("cell") /\ cell' = [p |-> Ev.p, K |-> Ev.K, N |-> Ev.N, org |-> Ev.org, span |-> Ev.span, types |-> Ev.types,
                                tau |-> Ev.tau, t |-> Ev.t, u |-> Ev.u, kinv |-> Ev.kinv, dif |-> Ev.dif, f |-> Ev.f, v |-> Ev.v]
\* eigenvalue zero: the diffusion equation without source
TFlux == At("flux") /\ Keep /\ (
  /\ cell.t = 0 /\ NoFixed /\ Solution(cell) /\ \A X \in Grid(cell) : Eval(cell.f, X, 0, 3) = 0
  /\ Len(Ev.vals) = 2 * cell.K
  /\ \A f \in Faces : \A i \in 1..Len(Ev.vals[f + 1]) : IsFlux(cell, f, i - 1, Ev.vals[f + 1][i], S)) = TRUE
TBulk == At("bulk") /\ Keep /\ (
  LET n == IPow(3, cell.K) X(i) == Pt(cell, BulkRef(cell.K, i - 1)) IN
  /\ cell.t = 0 /\ NoFixed /\ Solution(cell)
  /\ Len(Ev.u) = n /\ \A i \in 1..n : IsValue(cell, X(i), Ev.u[i], S)
  /\ Len(Ev.q) = n /\ \A i \in 1..n : \A k \in 1..cell.K : IsDual(cell, X(i), k, Ev.q[i][k], S)) = TRUE
TTypes == At("types") /\ Keep /\ (Ev.res = [f \in 1..(2 * cell.K) |-> IF Fixed(cell.types[f]) THEN 1 ELSE 0]) = TRUE
TInitial == At("init") /\ Keep /\ (
  \A f \in Faces : \A i \in 1..Len(Ev.vals[f + 1]) :
       IF Solid(f) THEN Ev.vals[f + 1][i] = 0
       ELSE IsValue([cell EXCEPT !.t = Ev.t], Pt(cell, FaceRef(cell.K, f, i - 1)), Ev.vals[f + 1][i], S)) = TRUE
TPair == At("pair") /\ Keep /\ (
  /\ Void(Ev.F1) /\ Void(Ev.F2) /\ Void(Ev.mu)
  /\ IsResolvent(cell, Ev.mu, Ev.F1, Ev.F2, Ev.e1, Ev.e2, Ev.inner)
  /\ IsLow(Ev.lam, Ev.F1, Ev.e1) /\ IsLow(Ev.lam, Ev.F2, Ev.e2)) = TRUE
TJac == At("jac") /\ Keep /\ (
  /\ Void(Ev.J) /\ Void(Ev.F) /\ Void(Ev.mu)
  /\ IsJacobian(cell, Ev.mu, Ev.J, Ev.F, Ev.de, Ev.inner)
  /\ IsLow(Ev.dl, Ev.F, Ev.e)) = TRUE
TraceNext == TCell \/ TFlux \/ TBulk \/ TTypes \/ TInitial \/ TPair \/ TJac
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
