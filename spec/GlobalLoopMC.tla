----------------------------- MODULE GlobalLoopMC -----------------------------
(* The fine grain of GlobalLoop: a call in progress visits hyperedges in any   *)
(* order.  Checked exhaustively over small hypergraphs, vectors, histories.    *)
EXTENDS GlobalLoop

CONSTANTS MaxCalls, XVals, Times, Kinds, GraphIds

VARIABLES pc, op, todo, acc, newdata, ret, calls, old
finevars == <<pc, op, todo, acc, newdata, ret, calls, old>>
vars == <<sysvars, finevars>>

\* Hypergraphs: star sharing a node; a hyperedge meeting a node twice; an isolated node; levels.
GraphSet ==
  [star |-> [p |-> [f |-> 2, d |-> 1, edge |-> TRUE, cons |-> FALSE, src |-> 0, geo |-> 0],
             ls |-> << [nN |-> 3, inc |-> <<<<0, 1>>, <<2, 1>>>>, types |-> <<<<1, 0>>, <<1, 0>>>>] >>],
   refine |-> [p |-> [f |-> 2, d |-> 1, edge |-> TRUE, cons |-> TRUE, src |-> 0, geo |-> 0],
             ls |-> << [nN |-> 2, inc |-> <<<<0, 1>>>>, types |-> <<<<1, 0>>>>],
                       [nN |-> 3, inc |-> <<<<0, 2>>, <<2, 1>>>>, types |-> <<<<1, 0>>, <<0, 0>>>>] >>],
   loop |-> [p |-> [f |-> 2, d |-> 1, edge |-> TRUE, cons |-> FALSE, src |-> 0, geo |-> 0],
             ls |-> << [nN |-> 3, inc |-> <<<<1, 1>>, <<0, 1>>, <<1, 0>>>>,
                        types |-> <<<<0, 1>>, <<0, 0>>, <<0, 0>>>>] >>],
   dofs |-> [p |-> [f |-> 2, d |-> 2, edge |-> FALSE, cons |-> TRUE, src |-> 0, geo |-> 0],
             ls |-> << [nN |-> 2, inc |-> <<<<1, 0>>>>, types |-> <<<<0, 1>>>>] >>]]

Vectors == [1..NDof -> XVals]
XSmall == {-1, 2}
NoOp == [name |-> "none"]

Init ==
  /\ \E k \in Kinds, gid \in GraphIds :
       LET g == GraphSet[gid] IN
       /\ kind = k /\ par = g.p /\ levels = g.ls
       /\ data = Zeros(Len(g.ls[1].inc))
  /\ lvl = 1 /\ dir = {} /\ dirok = TRUE
  /\ pc = "idle" /\ op = NoOp /\ todo = {} /\ acc = <<>> /\ newdata = <<>> /\ ret = <<>>
  /\ calls = 0 /\ old = <<>>

Begin(o) ==
  /\ pc = "idle" /\ calls < MaxCalls
  /\ pc' = "run" /\ op' = o /\ todo' = 1..NE /\ calls' = calls + 1
  /\ acc' = (IF o.name = "err" THEN <<5, -50>> ELSE Zeros(NDof))
  /\ newdata' = data /\ old' = data /\ ret' = <<>>
  /\ UNCHANGED sysvars

BeginFlux    == \E x \in Vectors, t \in Times : Begin([name |-> "flux", x |-> x, t |-> t])
BeginResid   == kind \in {"elliptic", "parabolic"}
                /\ \E x \in Vectors, t \in Times : Begin([name |-> "resid", x |-> x, t |-> t])
BeginErr     == kind \in {"elliptic", "parabolic"}
                /\ \E x \in Vectors, t \in Times : Begin([name |-> "err", x |-> x, t |-> t])
BeginSetData == kind = "parabolic"
                /\ \E x \in Vectors, t \in Times : Begin([name |-> "setdata", x |-> x, t |-> t])
BeginInit    == kind \in {"parabolic", "nonlinear"}
                /\ \E x \in Vectors, t \in Times : Begin([name |-> "init", x |-> x, t |-> t])

\* Setting instead of adding: what initialisation does with the values of one hyperedge.
SetScatter(a, e, t, x) ==
  [k \in 1..NDof |->
     LET hits == {n \in Faces : G.inc[e][n] = (k - 1) \div par.d} IN
     IF hits = {} THEN a[k]
     ELSE LET n == CHOOSE n \in hits : \A m \in hits : m <= n IN
          IF kind = "nonlinear" THEN NonlinInitVal(e, n - 1, (k - 1) % par.d, x, t)
          ELSE InitVal(e, n - 1, (k - 1) % par.d, t)]

Visit(e) ==
  /\ pc = "run" /\ e \in todo
  /\ todo' = todo \ {e}
  /\ acc' = CASE op.name = "flux"  -> Scatter(acc, e, LocLin(e, Gather(op.x, e), op.t))
              [] op.name = "resid" -> Scatter(acc, e, LocAff(e, Gather(op.x, e), op.t))
              [] op.name = "err"   -> <<acc[1] + LocErr(e, op.x, op.t)[1], Max2(acc[2], LocErr(e, op.x, op.t)[2])>>
              [] op.name = "init"  -> SetScatter(acc, e, op.t, op.x)
              [] OTHER             -> acc
  /\ data' = CASE op.name = "setdata" /\ par.edge -> [data EXCEPT ![e] = NewData(e, op.x, op.t)]
               [] op.name = "init" /\ kind = "parabolic" /\ par.edge -> [data EXCEPT ![e] = 5 * (e - 1) + op.t + 1]
               [] OTHER -> data
  /\ UNCHANGED <<kind, par, levels, lvl, dir, dirok, pc, op, newdata, ret, calls, old>>
VisitAny == \E e \in todo : Visit(e)

Finish ==
  /\ pc = "run" /\ todo = {}
  /\ pc' = "idle"
  /\ ret' = CASE op.name \in {"flux", "resid"} -> Clean(acc)
              [] op.name = "err" -> <<2 * acc[1] + 1, acc[2]>>
              [] OTHER -> acc
  /\ UNCHANGED <<sysvars, op, todo, acc, newdata, calls, old>>

Declare ==
  /\ pc = "idle" /\ calls < MaxCalls /\ calls' = calls + 1
  /\ \E s \in {<<>>, <<0>>, <<NDof - 1, 0, NDof - 1>>} : ReadDirichlet(s)
  /\ op' = NoOp /\ UNCHANGED <<pc, todo, acc, newdata, ret, old>>
Refine ==
  /\ pc = "idle" /\ calls < MaxCalls /\ calls' = calls + 1
  /\ \E L \in 1..Len(levels) : SetRefinement(L)
  /\ op' = NoOp /\ UNCHANGED <<pc, todo, acc, newdata, ret, old>>

Next == BeginFlux \/ BeginResid \/ BeginErr \/ BeginSetData \/ BeginInit \/ VisitAny \/ Finish
        \/ Declare \/ Refine
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
WithOld(e) == e
\* Whatever the order of the hyperedges, a finished call returned what the coarse grain says.
ResultIsCoarse ==
  (pc = "idle" /\ op.name \in {"flux", "resid", "err", "init"}) =>
    CASE op.name = "flux"  -> ret = FluxResult(op.x, op.t)
      [] op.name = "resid" -> ret = ResidResult(op.x, op.t)
      [] op.name = "err"   -> ret = ErrResult(op.x, op.t)
      [] op.name = "init"  -> InitOk(ret, op.x, op.t)
\* Hyperedge data after a step is a function of the same hyperedge's data before it.
DataIsLocal ==
  (pc = "idle" /\ op.name = "setdata" /\ par.edge) =>
    data = [e \in 1..NE |->
      (3 * old[e] + Sum([q \in 1..(par.f * par.d) |->
        q * op.x[Dof(G.inc[e][((q - 1) \div par.d) + 1], (q - 1) % par.d) + 1]]) + op.t + e - 1 + 2018) % 1009]
DataOnlyByTimeSteps == (pc = "idle" /\ op.name \in {"flux", "resid", "err"}) => data = old
\* Dirichlet rows vanish, all others are those of the unconstrained operator.
DirichletRows ==
  (pc = "idle" /\ op.name = "flux" /\ kind = "elliptic") =>
    \A k \in 1..NDof : ret[k] = IF (k - 1) \in dir THEN 0 ELSE FluxRaw(op.x, op.t)[k]
\* The matrix in coordinate format acts like the operator.
MatrixActs ==
  (pc = "idle" /\ op.name = "flux") =>
    \A r \in 1..NDof :
      FluxRaw(op.x, op.t)[r] = Sum([c \in 1..NDof |-> MatEntry(r - 1, c - 1, op.t) * op.x[c]])
\* The operator is linear in the trace.
Linear ==
  (pc = "idle" /\ op.name = "flux") =>
    /\ FluxResult([k \in 1..NDof |-> 2 * op.x[k]], op.t) = [k \in 1..NDof |-> 2 * ret[k]]
    /\ \A j \in 1..NDof :
         LET u == [k \in 1..NDof |-> IF k = j THEN 1 ELSE 0] IN
         FluxResult(Add(op.x, u), op.t) = Add(ret, FluxResult(u, op.t))
SizeOk == Len(data) = NE /\ (dirok => dir \subseteq 0..(NDof - 1))
=============================================================================
