--------------------------- MODULE LocalStepTrace ---------------------------
EXTENDS LocalStep, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<cell, old, smooth, mass, tr, l>>
Ev == Trace[l]
Is_(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1
S == 64
Keep == UNCHANGED svars
TraceInit == cell = [p |-> 0] /\ old = NoTime /\ smooth = FALSE /\ mass = 0 /\ tr = <<>> /\ l = 1
Faces == 0..(2 * cell.K - 1)
Solid(f) == Fixed(cell.types[f + 1])
NoFixed == \A f \in Faces : ~Solid(f)
First(m) == [f \in 1..Len(m) |-> m[f][1]]
TCell == Is_("cell") /\ Start([p |-> Ev.p, K |-> Ev.K, N |-> Ev.N, org |-> Ev.org, span |-> Ev.span, types |-> Ev.types,
                               tau |-> Ev.tau, t |-> Ev.t, u |-> Ev.u, kinv |-> Ev.kinv, dif |-> Ev.dif, f |-> Ev.f, v |-> Ev.v,
                               theta |-> Ev.theta, dt |-> Ev.dt])
TInit == Is_("init") /\ Initial(Ev.t) /\ (
  /\ Evolves(cell, Ev.t)
  /\ \A f \in Faces : \A i \in 1..Len(Ev.vals[f + 1]) :
       IF Solid(f) THEN Ev.vals[f + 1][i] = 0 ELSE IsValue(At(cell, Ev.t), Pt(cell, FaceRef(cell.K, f, i - 1)), Ev.vals[f + 1][i], S)) = TRUE
TStep == Is_("step") /\ smooth /\ Next_(Ev.t) /\ Keep /\ (
  /\ Evolves(cell, Ev.t)
  /\ \A f \in Faces : \A i \in 1..Len(Ev.vals[f + 1]) :
       IF Solid(f) THEN Ev.vals[f + 1][i] = 0 ELSE IsStepFlux(cell, f, i - 1, old, Ev.t, Ev.vals[f + 1][i], S)) = TRUE
TBulk == Is_("bulk") /\ smooth /\ Next_(Ev.t) /\ Keep /\ (
  LET n == IPow(3, cell.K) X(i) == Pt(cell, BulkRef(cell.K, i - 1)) c == At(cell, Ev.t) IN
  /\ Evolves(cell, Ev.t)
  /\ Len(Ev.u) = n /\ \A i \in 1..n : IsValue(c, X(i), Ev.u[i], S)
  /\ Len(Ev.q) = n /\ \A i \in 1..n : \A k \in 1..cell.K : IsDual(c, X(i), k, Ev.q[i][k], S)) = TRUE
TErr == Is_("err") /\ smooth /\ Keep /\ (IsStoredError(cell, old, Ev.t, Ev.res)) = TRUE
TSet == Is_("set") /\ smooth /\ Advance(Ev.t)
TRough == Is_("rough") /\ Leave(Ev.t, Weighted(cell.K, Ev.u), Scale(S, First(Ev.lam))) /\ (
  /\ Len(Ev.u) = IPow(3, cell.K)
  /\ \A f \in 1..(2 * cell.K) : CloseSeq(Ev.res[f], Add(Ev.hom[f], Ev.inh[f]), 2)
  /\ \A f \in Faces : Solid(f) => \A j \in 1..Len(Ev.res[f + 1]) : Ev.res[f + 1][j] = 0 /\ Ev.hom[f + 1][j] = 0
  /\ NoFixed => Balanced(cell, mass, mass', old, Ev.t, First(Ev.res))
  /\ (NoFixed /\ cell.p = 0 /\ Boxy(cell) /\ Constant(cell.kinv)) =>
       LET s == IPow(6, cell.K) k == Eval(cell.kinv, Centre(cell), 1, 0) IN
       /\ mass' = s * Ev.u[1]
       /\ \A f \in Faces : (cell.kinv[1][cell.N + 2] = 0) =>
            IsLowStep(cell, k, mass \div s, tr, Ev.u[1], tr', f, Ev.res[f + 1][1])) = TRUE
TMatrix == Is_("matrix") /\ Keep /\ (
  LET n == 2 * cell.K * Ev.nb M == Ev.mat IN
  /\ Len(M) = n /\ \A i \in 1..n : Len(M[i]) = n
  /\ \A i, j \in 1..n :
       IF Solid((j - 1) \div Ev.nb) THEN M[i][j] = 0
       ELSE /\ ~Solid((i - 1) \div Ev.nb) => Close(M[i][j], M[j][i], 2)
            /\ (i = j) => M[i][i] < 0) = TRUE
TraceNext == TCell \/ TInit \/ TStep \/ TBulk \/ TErr \/ TSet \/ TRough \/ TMatrix
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
