--------------------------- MODULE GlobalLoopTrace ---------------------------
(* Recorded calls of the C++ global loops, checked against GlobalLoop.        *)
EXTENDS GlobalLoop, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<sysvars, l>>
Ev == Trace[l]
Is(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1

TraceInit ==
  /\ kind = "none" /\ par = [f |-> 2, d |-> 1, edge |-> TRUE, cons |-> TRUE, src |-> 0, geo |-> 0]
  /\ levels = <<>> /\ lvl = 1 /\ dir = {} /\ dirok = TRUE /\ data = <<>> /\ l = 1

TNew == Is("new") /\ New(Ev.loop, [f |-> Ev.f, d |-> Ev.d, edge |-> Ev.edge, cons |-> Ev.cons, src |-> Ev.src, geo |-> Ev.geo], Ev.levels)
TFlux == Is("flux") /\ Query /\ dirok /\ Ev.res = FluxResult(Ev.x, Ev.t)
TResid == Is("resid") /\ Query /\ dirok /\ Ev.res = ResidResult(Ev.x, Ev.t)
TMass == Is("mass") /\ Query /\ kind = "mass" /\ Ev.res = MassResult(Ev.x, Ev.t)
TJac == Is("jac") /\ Query /\ kind = "nonlinear" /\ Ev.res = JacResult(Ev.x, Ev.t, Ev.y, Ev.s)
TMat == Is("mat") /\ Query /\ kind = "elliptic" /\ (MatOk(Ev.rows, Ev.cols, Ev.vals, Ev.t) = TRUE)
TErr == Is("err") /\ Query /\ Ev.res = ErrResult(Ev.x, Ev.t)
TInit == Is("init") /\ (InitOk(Ev.res, Ev.x, Ev.t) = TRUE)
           /\ IF kind = "parabolic" THEN MakeInitial(Ev.t) ELSE Query
TSetData == Is("setdata") /\ SetData(Ev.x, Ev.t)
TDirRead == Is("dirread") /\ ReadDirichlet(Ev.idx)
TDirGet == Is("dirget") /\ Query /\ kind \in {"mass", "shifted"} /\ Ev.res = SortedSeq(DirSet)
TSetRef == Is("setref") /\ SetRefinement(Ev.L)
TGetRef == Is("getref") /\ Query /\ Ev.res = lvl
TSize == Is("size") /\ Query /\ Ev.res = NDof
TZero == Is("zero") /\ Query /\ Ev.res = Zeros(NDof)
\* Traversal of the hypergraph itself: every hyperedge once, in index order, with its own parts.
TIter == Is("iter") /\ Query
           /\ Ev.idx = [e \in 1..NE |-> e - 1]
           /\ Ev.post = Ev.idx
           /\ Ev.back = [e \in 1..NE |-> NE - e] /\ Ev.pback = Ev.back
           /\ Ev.geo = [e \in 1..NE |-> <<e - 1, lvl + par.geo>>]
           /\ Ev.nodes = [e \in 1..NE |-> G.inc[e]]
           /\ Ev.types = [e \in 1..NE |-> G.types[e]]
           /\ Ev.nE = NE /\ Ev.nN = NN

TraceNext == TNew \/ TFlux \/ TResid \/ TMass \/ TJac \/ TMat \/ TErr \/ TInit \/ TSetData
             \/ TDirRead \/ TDirGet \/ TSetRef \/ TGetRef \/ TSize \/ TZero \/ TIter
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
