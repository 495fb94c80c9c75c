-------------------------- MODULE GlobalSolveTrace --------------------------
EXTENDS GlobalSolve, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Kind == IOEnv.KIND                                       \* diffusion | flow | plate | step | platestep | advect
Stepping == Kind \in {"step", "platestep", "advect"}
Plate == Kind \in {"plate", "platestep"}
VARIABLE l
vars == <<cell, old, smooth, mass, tr, mesh, held, l>>
Ev == Trace[l]
Is_(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1
TraceInit == /\ cell = [p |-> 0] /\ old = NoTime /\ smooth = FALSE /\ mass = 0 /\ tr = <<>>
             /\ mesh = <<>> /\ held = NoTime /\ l = 1
AllUnknowns(c, m) == IF Plate THEN 2 * Unknowns(c, m) ELSE Unknowns(c, m)
FreeUnknowns(c, m, t) ==
  AllUnknowns(c, m) - (IF Kind = "advect" THEN Prescribed(c, m, {f \in 1..(2 * c.K) : Shut(c, f - 1, t)})
                       ELSE IF Plate THEN Prescribed(c, m, Sides(c, FixedU)) + Prescribed(c, m, Sides(c, FixedW))
                       ELSE Prescribed(c, m, Sides(c, Fixed)))
\* the polynomials solve the equations, and nothing leaves where no value is prescribed
Exact(c) ==
  LET S == 1..(2 * c.K) IN
  CASE Kind = "diffusion" -> Solution(c) /\ \A f \in S : Fixed(c.types[f]) \/ NoFlux(c, c.u, f)
    [] Kind = "flow" -> FlowSolution(c) /\ \A f \in S : Fixed(c.types[f])
    [] Kind = "step" -> Evolves(c, c.t) /\ \A f \in S : Fixed(c.types[f]) \/ NoFlux(c, c.u, f)
    [] Kind = "advect" -> Carried(c, c.t) /\ Blowing(c, c.t)
    [] OTHER -> /\ IF Kind = "plate" THEN PlateSolution(c, c.f) ELSE PlateEvolves(c, c.t)
                /\ \A f \in S : (FixedU(c.types[f]) \/ NoFlux(c, c.w, f)) /\ (FixedW(c.types[f]) \/ NoFlux(c, c.u, f))
TOpen == Is_("problem") /\ Open([p |-> Ev.p, K |-> Ev.K, N |-> Ev.N, org |-> Ev.org, span |-> Ev.span, types |-> Ev.types,
                                 tau |-> Ev.tau, t |-> Ev.t, u |-> Ev.u, kinv |-> Ev.kinv, dif |-> Ev.dif, w |-> Ev.dif,
                                 f |-> Ev.f, v |-> Ev.v, theta |-> Ev.theta, dt |-> Ev.dt,
                                 b |-> IF Kind = "flow" THEN Ev.b ELSE <<>>, vel |-> IF Kind = "advect" THEN Ev.b ELSE <<>>, c |-> IF Kind = "flow" THEN Ev.c ELSE <<>>,
                                 flow |-> IF Kind = "flow" THEN Ev.flow ELSE <<>>], Ev.mesh) /\ (
  /\ Ev.r = 1 /\ Ev.size = AllUnknowns(cell', mesh')
  /\ Ev.cubic = 1 => /\ \A d \in 1..Ev.N : Ev.org[d] = 0
                     /\ \A k \in 1..Ev.K : Ev.span[k] = [Zeros(Ev.N) EXCEPT ![k] = 1]) = TRUE
TRefine == Is_("refine") /\ Refine(Ev.t) /\ (Ev.r = Ev.t /\ Ev.size = AllUnknowns(cell', mesh')) = TRUE
TInit == Is_("init") /\ Stepping /\ Remember(Ev.t) /\ (Exact(At(cell, Ev.t))) = TRUE
TSolve == Is_("solve") /\ (Stepping => Next_(Ev.t)) /\ Hold(Ev.t) /\ (
  /\ Exact(At(cell, Ev.t))
  /\ Ev.free = FreeUnknowns(cell, mesh, Ev.t)
  /\ Abs(Ev.rest) <= 1                                   \* no residual
  /\ Abs(Ev.cg) <= 2) = TRUE                             \* conjugate gradients find the same
TSet == Is_("set") /\ Stepping /\ held = Ev.t /\ Next_(Ev.t) /\ Remember(Ev.t)
TErr == Is_("err") /\ UNCHANGED gvars /\ (
  LET c == [cell EXCEPT !.t = Ev.t, !.v = Ev.v] IN
  /\ Ev.n = 1
  /\ CASE Kind \in {"step", "advect"} -> old # NoTime /\ IsStoredError(c, old, Ev.t, Ev.res)
       [] Kind = "platestep" -> held = Ev.t /\ Next_(Ev.t) /\ IsPlateError(c, Ev.res)
       [] Kind = "plate" -> held = Ev.t /\ IsPlateError(c, Ev.res)
       [] OTHER -> held = Ev.t /\ IsError(c, Ev.res)) = TRUE
TraceNext == TOpen \/ TRefine \/ TInit \/ TSolve \/ TSet \/ TErr
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
