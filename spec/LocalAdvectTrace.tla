-------------------------- MODULE LocalAdvectTrace --------------------------
EXTENDS LocalAdvect, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<cell, old, smooth, mass, tr, l>>
Ev == Trace[l]
Is_(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1
S == 64
Keep == UNCHANGED svars
TraceInit == cell = [p |-> 0] /\ old = NoTime /\ smooth = FALSE /\ mass = 0 /\ tr = <<>> /\ l = 1
Faces == 0..(2 * cell.K - 1)
Plain == \A f \in Faces : cell.types[f + 1] \in {0, 5}
First(m) == [f \in 1..Len(m) |-> m[f][1]]
TCell == Is_("cell") /\ Start([p |-> Ev.p, K |-> Ev.K, N |-> Ev.N, org |-> Ev.org, span |-> Ev.span, types |-> Ev.types,
                               tau |-> Ev.tau, fine |-> Ev.fine, u |-> Ev.u, f |-> Ev.f, v |-> Ev.v, vel |-> Ev.vel,
                               theta |-> Ev.theta, dt |-> Ev.dt, t |-> 0])
TInit == Is_("init") /\ Initial(Ev.t) /\ (
  /\ Carried(cell, Ev.t)
  /\ \A f \in Faces : \A i \in 1..Len(Ev.vals[f + 1]) :
       IF Shut(cell, f, Ev.t) THEN Ev.vals[f + 1][i] = 0
       ELSE IsValue(At(cell, Ev.t), Pt(cell, FaceRef(cell.K, f, i - 1)), Ev.vals[f + 1][i], S)) = TRUE
TStep == Is_("step") /\ smooth /\ Next_(Ev.t) /\ Keep /\ (
  /\ Carried(cell, Ev.t)
  /\ \A f \in Faces : \A i \in 1..Len(Ev.vals[f + 1]) :
       IF Shut(cell, f, Ev.t) THEN Ev.vals[f + 1][i] = 0
       ELSE IsExchange(cell, f, i - 1, old, Ev.t, Ev.vals[f + 1][i], S)) = TRUE
\* the remembered state is shown, whatever time is asked for
TBulk == Is_("bulk") /\ old # NoTime /\ Keep /\ (
  LET n == IPow(3, cell.K) IN
  /\ Len(Ev.u) = n
  /\ IF smooth THEN \A i \in 1..n : IsValue(At(cell, old), Pt(cell, BulkRef(cell.K, i - 1)), Ev.u[i], S)
     ELSE Weighted(cell.K, Ev.u) = mass) = TRUE
TErr == Is_("err") /\ smooth /\ Keep /\ (
  /\ IsStoredError(cell, old, Ev.t, Ev.res)
  \* errors of three hyperedges like this one, put together
  /\ Close(Ev.three, 3 * Ev.res, 3) /\ Ev.same = 1) = TRUE
TSet == Is_("set") /\ smooth /\ Advance(Ev.t)
TRough == Is_("rough") /\ Leave(Ev.t, Weighted(cell.K, Ev.u), Scale(S, First(Ev.lam))) /\ (
  /\ Len(Ev.u) = IPow(3, cell.K)
  /\ \A f \in 1..(2 * cell.K) : CloseSeq(Ev.res[f], Add(Ev.hom[f], Ev.inh[f]), 2)
  /\ \A f \in Faces : Shut(cell, f, Ev.t) => \A j \in 1..Len(Ev.res[f + 1]) : Ev.res[f + 1][j] = 0 /\ Ev.hom[f + 1][j] = 0 /\ Ev.lam[f + 1][j] = 0
  /\ Plain => Balanced(cell, mass, mass', old, Ev.t, First(Ev.res))
  /\ cell.p = 0 =>
       LET s == IPow(6, cell.K) x0 == [f \in 1..Len(tr) |-> IF Shut(cell, f - 1, old) THEN 0 ELSE tr[f]] IN
       /\ mass' = s * Ev.u[1]
       /\ IsLowAdvance(cell, old, Ev.t, mass \div s, x0, Ev.u[1], tr', S)
       /\ \A f \in Faces : ~Shut(cell, f, Ev.t) =>
            /\ IsLowSeen(cell, f, old, Ev.t, mass \div s, x0, Ev.u[1], tr', Ev.res[f + 1][1])
            /\ IsLowResponse(cell, f, Ev.t, First(Ev.lam), Ev.hom[f + 1][1], S)) = TRUE
TraceNext == TCell \/ TInit \/ TStep \/ TBulk \/ TErr \/ TSet \/ TRough
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
