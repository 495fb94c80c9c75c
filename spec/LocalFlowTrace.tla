--------------------------- MODULE LocalFlowTrace ---------------------------
EXTENDS LocalFlow, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<cell, l>>
Ev == Trace[l]
At(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1
S == 64
Keep == UNCHANGED cell
TraceInit == cell = [p |-> 0] /\ l = 1
Faces == 0..(2 * cell.K - 1)
NoFixed == \A f \in Faces : ~Fixed(cell.types[f + 1])
IntAt(P) == Eval(P, Centre(cell), cell.t, 0)    \* constants
Still == \A d \in 1..cell.N : cell.b[d] = <<>>  \* no advection
Vel == [d \in 1..cell.N |-> IntAt(cell.b[d])]
TCell == At("cell") /\ cell' = [p |-> Ev.p, K |-> Ev.K, N |-> Ev.N, org |-> Ev.org, span |-> Ev.span, types |-> Ev.types,
                                tau |-> Ev.tau, t |-> Ev.t, u |-> Ev.u, kinv |-> Ev.kinv, f |-> Ev.f, v |-> Ev.v,
                                b |-> Ev.b, c |-> Ev.c, flow |-> Ev.flow]
TFlux == At("flux") /\ Keep /\ (
  /\ FlowSolution(cell)
  /\ Len(Ev.vals) = 2 * cell.K
  /\ \A f \in Faces : \A i \in 1..Len(Ev.vals[f + 1]) :
       IF Fixed(cell.types[f + 1]) THEN Ev.vals[f + 1][i] = 0
       ELSE IsFlowFlux(cell, f, i - 1, Ev.vals[f + 1][i], S)) = TRUE
TTypes == At("types") /\ Keep /\ (Ev.res = [f \in 1..(2 * cell.K) |-> IF Fixed(cell.types[f]) THEN 1 ELSE 0]) = TRUE
TBulk == At("bulk") /\ Keep /\ (
  LET n == IPow(Len(Ev.at), cell.K) X(i) == Pt(cell, GridRef(cell.K, Ev.at, i - 1)) IN
  /\ FlowSolution(cell)
  /\ Len(Ev.u) = n /\ \A i \in 1..n : IsValue(cell, X(i), Ev.u[i], S)
  /\ Len(Ev.q) = n /\ \A i \in 1..n : \A k \in 1..cell.K : IsFlowDual(cell, X(i), k, Ev.q[i][k], S)) = TRUE
TErr == At("err") /\ Keep /\ (FlowSolution(cell) /\ Ev.n = 1 /\ IsError(cell, Ev.res)) = TRUE

First(m) == [f \in 1..Len(m) |-> m[f][1]]       \* integrals over the faces
Low == cell.p = 0 /\ Boxy(cell) /\ NoFixed
\* constant data from here on
TAny == At("any") /\ Keep /\ (
  LET lam == First(Ev.lam) f0 == IntAt(cell.f) k == IntAt(cell.kinv) r == IntAt(cell.c) IN
  /\ Len(Ev.hom) = 2 * cell.K /\ Len(Ev.res) = 2 * cell.K /\ Len(Ev.inh) = 2 * cell.K
  /\ \A f \in 1..(2 * cell.K) : CloseSeq(Ev.res[f], Add(Ev.hom[f], Ev.inh[f]), 2)            \* affine
  /\ \A f \in 1..(2 * cell.K) : Fixed(cell.types[f]) => \A j \in 1..Len(Ev.res[f]) : Ev.res[f][j] = 0 /\ Ev.hom[f][j] = 0
  /\ NoFixed => Close(Sum(First(Ev.res)), Volume(cell) * (S * f0 - r * Ev.mean), 4 * cell.K + r * Volume(cell))
  /\ Low => \A f \in Faces : Is(LowFlowFlux(cell, lam, f, f0, k, Vel, r), Ev.res[f + 1][1], S)) = TRUE
TMass == At("mass") /\ Keep /\ (
  LET k == IntAt(cell.kinv) r == IntAt(cell.c) IN
  /\ \A f \in 1..(2 * cell.K) : CloseSeq(Ev.tot[f], Add(Ev.M[f], Ev.tot0[f]), 2)
  /\ \A f \in 1..(2 * cell.K) : Fixed(cell.types[f]) => \A j \in 1..Len(Ev.M[f]) : Ev.M[f][j] = 0 /\ Ev.mu[f][j] = 0
  /\ Still => IsMass(cell, Ev.mu, Ev.M, Ev.inner)
  /\ Low => \A f \in Faces : Is(LowFlowMass(cell, First(Ev.lam), f, k, Vel, r), Ev.M[f + 1][1], S)) = TRUE
TMatrix == At("matrix") /\ Keep /\ (
  LET n == 2 * cell.K * Ev.nb M == Ev.mat k == IntAt(cell.kinv) IN
  /\ Len(M) = n /\ \A i \in 1..n : Len(M[i]) = n
  /\ \A i, j \in 1..n :                          \* row i: response to the i-th unit vector
       IF Fixed(cell.types[(j - 1) \div Ev.nb + 1]) THEN M[i][j] = 0
       ELSE Still /\ ~Fixed(cell.types[(i - 1) \div Ev.nb + 1]) => Close(M[i][j], M[j][i], 2)
  \* a constant is transported
  /\ cell.c = <<>> /\ NoFixed => \A j \in 1..n :
       LET f == (j - 1) \div Ev.nb sgn == IF f % 2 = 1 THEN 1 ELSE -1
           s == Sum([g \in 1..(2 * cell.K) |-> M[(g - 1) * Ev.nb + 1][j]]) IN
       IF (j - 1) % Ev.nb = 0 THEN Close(k * Denom(cell) * s, 1024 * sgn * Dot(Vel, Conormal(cell, f \div 2 + 1)), 8 * k * Denom(cell))
       ELSE Close(s, 0, 8)) = TRUE
TraceNext == TCell \/ TFlux \/ TTypes \/ TBulk \/ TErr \/ TAny \/ TMass \/ TMatrix
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
