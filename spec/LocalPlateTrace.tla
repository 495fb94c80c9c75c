--------------------------- MODULE LocalPlateTrace ---------------------------
EXTENDS LocalPlate, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Kind == IOEnv.KIND                               \* flat | unit | eigs | step
Crossed == Kind # "unit"                         \* the flux of w comes first
VARIABLE l
vars == <<cell, old, smooth, mass, tr, l>>
Ev == Trace[l]
Is_(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1
S == 64
Keep == UNCHANGED svars
TraceInit == cell = [p |-> 0] /\ old = NoTime /\ smooth = FALSE /\ mass = 0 /\ tr = <<>> /\ l = 1
Faces == 0..(2 * cell.K - 1)
Y(f) == cell.types[f + 1]
NoFixed == \A f \in Faces : ~FixedU(Y(f)) /\ ~FixedW(Y(f))
Firsts(m) == [f \in 1..Len(m) |-> m[f][1]]
FluxW(m, nb) == IF Crossed THEN Fst(m, nb) ELSE Snd(m, nb)
FluxU(m, nb) == IF Crossed THEN Snd(m, nb) ELSE Fst(m, nb)
None(row) == \A j \in 1..Len(row) : row[j] = 0
\* nothing is returned where the value is prescribed
Void(m, nb) == Len(m) = 2 * cell.K /\ \A f \in Faces :
                 (FixedU(Y(f)) => None(Fst(m, nb)[f + 1])) /\ (FixedW(Y(f)) => None(Snd(m, nb)[f + 1]))
Right(c) == IF Kind = "step" THEN smooth /\ Next_(Ev.t) /\ PlateEvolves(c, Ev.t)
            ELSE IF Kind = "eigs" THEN Ev.t = 0 /\ NoFixed /\ PlateSolution(At(c, Ev.t), <<>>)
            ELSE PlateSolution(At(c, Ev.t), c.f)
TCell == Is_("cell") /\ Start([p |-> Ev.p, K |-> Ev.K, N |-> Ev.N, org |-> Ev.org, span |-> Ev.span, types |-> Ev.types,
                               tau |-> Ev.tau, t |-> Ev.t, u |-> Ev.u, w |-> Ev.dif, kinv |-> Ev.kinv, f |-> Ev.f, v |-> Ev.v,
                               theta |-> Ev.theta, dt |-> Ev.dt])
TFlux == Is_("flux") /\ Keep /\ (
  LET c == At(cell, Ev.t) fw == IF Crossed THEN Ev.fst ELSE Ev.snd fu == IF Crossed THEN Ev.snd ELSE Ev.fst IN
  /\ Right(cell)
  /\ \A f \in Faces : \A i \in 1..Len(fw[f + 1]) :
       /\ IF FixedU(Y(f)) THEN fw[f + 1][i] = 0 ELSE IsFluxOf(c, c.w, f, i - 1, fw[f + 1][i], S)
       /\ IF FixedW(Y(f)) THEN fu[f + 1][i] = 0 ELSE IsFluxOf(c, c.u, f, i - 1, fu[f + 1][i], S)) = TRUE
TBulk == Is_("bulk") /\ Keep /\ (
  LET n == IPow(Len(Ev.at), cell.K) X(i) == Pt(cell, GridRef(cell.K, Ev.at, i - 1)) c == At(cell, Ev.t) IN
  /\ Right(cell)
  /\ Len(Ev.u) = n /\ \A i \in 1..n : IsValueOf(c, c.u, X(i), Ev.u[i], S)
  /\ Len(Ev.q) = n /\ \A i \in 1..n : \A k \in 1..cell.K : IsDualOf(c, c.u, X(i), k, Ev.q[i][k], S)) = TRUE
TErr == Is_("err") /\ Keep /\ (Right(cell) /\ Ev.n = 1 /\ IsPlateError(At(cell, Ev.t), Ev.res)) = TRUE
TTypes == Is_("types") /\ Keep /\ (Ev.res = [f \in 1..(2 * cell.K) |-> IF FixedU(cell.types[f]) THEN 1 ELSE 0]) = TRUE
TInit == Is_("init") /\ Initial(Ev.t) /\ (
  LET c == At(cell, Ev.t) IN
  \A f \in Faces : \A i \in 1..Len(Ev.fst[f + 1]) :
    CASE Y(f) = 4 -> Ev.fst[f + 1][i] = 0 /\ Ev.snd[f + 1][i] = 0
      [] Y(f) \in {0, 3} -> LET X == Pt(c, FaceRef(c.K, f, i - 1)) IN
           IsValueOf(c, c.u, X, Ev.fst[f + 1][i], S) /\ IsValueOf(c, c.w, X, Ev.snd[f + 1][i], S)
      [] OTHER -> TRUE) = TRUE
TSet == Is_("set") /\ smooth /\ Advance(Ev.t) /\ (PlateEvolves(cell, Ev.t)) = TRUE

IntOf(P) == Eval(P, Centre(cell), Ev.t, 0)
Affine == \A f \in 1..(2 * cell.K) : CloseSeq(Ev.res[f], Add(Ev.hom[f], Ev.inh[f]), 2)
Low == cell.p = 0 /\ Boxy(cell) /\ NoFixed /\ Constant(cell.kinv)
OutU == Sum(Firsts(FluxU(Ev.res, Ev.nb)))
TAny == Is_("any") /\ Keep /\ (
  LET nb == Ev.nb lu == Firsts(Fst(Ev.lam, nb)) lw == Firsts(Snd(Ev.lam, nb))
      fw == FluxW(Ev.res, nb) fu == FluxU(Ev.res, nb)
      const == Constant(cell.f) /\ Constant(cell.kinv) f0 == IntOf(cell.f) k == IntOf(cell.kinv) IN
  /\ Affine /\ Void(Ev.res, nb) /\ Void(Ev.hom, nb)
  /\ NoFixed =>
       /\ Close(Sum(Firsts(FluxW(Ev.hom, nb))), 0, 4 * cell.K)
       /\ const => Close(Sum(Firsts(FluxW(Ev.inh, nb))), S * f0 * Volume(cell), 4 * cell.K)
       /\ None(FlattenSeq(Snd(Ev.lam, nb))) => \A f \in 1..(2 * cell.K) : None(FluxW(Ev.hom, nb)[f])    \* w = 0
  /\ (Low /\ const) => \A f \in Faces :
       /\ Is(LowFlux(cell, lw, f, f0, 1, 1, TRUE), fw[f + 1][1], S)
       /\ IsLowFlux(cell, Ev.u[1], lu, f, fu[f + 1][1], S)
  /\ (Low /\ const) => LET m == Mean(cell, lw, f0) IN
       Close(m[2] * OutU, S * k * Volume(cell) * m[1], m[2] * 2 * cell.K)
  /\ (const /\ cell.K = 1 /\ cell.p > 0 /\ NoFixed /\ (f0 = 0 \/ cell.p > 1)) => \A f \in Faces :
       /\ Is(LineFlux(cell, lw, f, f0, 1, 1), fw[f + 1][1], S)
       /\ Is(LineOfU(cell, lu, lw, f, f0, k), fu[f + 1][1], S)) = TRUE
TRough == Is_("rough") /\ Leave(Ev.t, Weighted(cell.K, Ev.u), <<>>) /\ (
  LET nb == Ev.nb lu == Firsts(Fst(Ev.lam, nb)) lw == Firsts(Snd(Ev.lam, nb)) fw == FluxW(Ev.res, nb) fu == FluxU(Ev.res, nb) IN
  /\ Affine /\ Void(Ev.res, nb) /\ Void(Ev.hom, nb)
  /\ NoFixed => Balanced(cell, mass, mass', old, Ev.t, Firsts(fw))
  /\ Low => \A f \in Faces :
       /\ IsLowFlux(cell, Ev.u[1], lu, f, fu[f + 1][1], S)
       /\ IsLowRatio(cell, OutU, IntOf(cell.kinv) * Volume(cell), lw, f, fw[f + 1][1], S)) = TRUE
\* position of the unknown that an unknown is tested with
Mate(j, nb) == IF Crossed THEN j ELSE LET o == (j - 1) % (2 * nb) IN IF o < nb THEN j + nb ELSE j - nb
TMatrix == Is_("matrix") /\ Keep /\ (
  LET n == 4 * cell.K * Ev.nb M == Ev.mat nb == Ev.nb
      face(j) == (j - 1) \div (2 * nb) isU(j) == (j - 1) % (2 * nb) < nb
      solid(j) == IF isU(j) THEN FixedU(Y(face(j))) ELSE FixedW(Y(face(j)))
      B(i, j) == M[i][Mate(j, nb)] IN
  /\ Len(M) = n /\ \A i \in 1..n : Len(M[i]) = n
  /\ \A i, j \in 1..n :
       IF solid(j) THEN B(i, j) = 0
       ELSE /\ ~solid(i) => Close(B(i, j), B(j, i), 2)
            /\ (isU(i) /\ isU(j) /\ Kind \in {"flat", "unit"}) => Abs(B(i, j)) <= 1
            /\ (~isU(i) /\ i = j) => B(i, i) > 0
            \* u reacts to its trace as w does to its own
            /\ (Kind \in {"flat", "unit"} /\ isU(i) /\ ~isU(j) /\ ~solid(j - nb) /\ ~solid(i)) => Close(B(i, j), B(i + nb, j - nb), 2)
  /\ Kind \in {"flat", "unit"} => \A j \in 1..n : (~solid(j) /\ ~isU(j)) =>   \* constant u carries nothing
       Close(Sum([k \in 1..(2 * cell.K) |-> B((k - 1) * 2 * nb + 1, j)]), 0, 8)) = TRUE
TPair == Is_("pair") /\ Keep /\ (
  /\ Void(Ev.F1, Len(Ev.lam[1]) \div 2) /\ Void(Ev.F2, Len(Ev.lam[1]) \div 2) /\ Void(Ev.mu, Len(Ev.lam[1]) \div 2)
  /\ IsShift(cell, Ev.mu, Ev.F1, Ev.F2, Ev.e2 - Ev.e1, Ev.inner)) = TRUE
TJac == Is_("jac") /\ Keep /\ (
  /\ Void(Ev.J, Len(Ev.dl[1]) \div 2) /\ Void(Ev.mu, Len(Ev.dl[1]) \div 2)
  /\ IsShift(cell, Ev.mu, Ev.F, Ev.J, Ev.de, Ev.inner)) = TRUE
TMass == Is_("mass") /\ Keep /\ (
  /\ Void(Ev.M, Len(Ev.lam[1]) \div 2) /\ Void(Ev.mu, Len(Ev.lam[1]) \div 2)
  /\ \A f \in 1..(2 * cell.K) : CloseSeq(Ev.tot[f], Add(Ev.M[f], Ev.tot0[f]), 2)
  /\ IsShift(cell, Ev.mu, [f \in 1..Len(Ev.mu) |-> Zeros(Len(Ev.mu[f]))], Ev.M, 8, Ev.inner)) = TRUE
TraceNext == TCell \/ TFlux \/ TBulk \/ TErr \/ TTypes \/ TInit \/ TSet \/ TAny \/ TRough \/ TMatrix \/ TPair \/ TJac \/ TMass
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
