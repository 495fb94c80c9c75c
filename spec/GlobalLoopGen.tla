---------------------------- MODULE GlobalLoopGen ----------------------------
(* Random behaviours of GlobalLoop (coarse grain), written out as call        *)
(* sequences that are then replayed into the C++ classes.                     *)
EXTENDS GlobalLoopMC, Json
CONSTANT Depth
VARIABLE hist
gvars == <<vars, hist>>
Log(r) == hist' = Append(hist, r)
Same == UNCHANGED finevars
GInit == Init /\ hist = <<[op |-> "new", loop |-> kind, par |-> par, levels |-> levels]>>
Small == hist = hist /\ Len(hist) <= Depth
Rnd == {[k \in 1..NDof |-> RandomElement({-3, -1, 0, 1, 2, 4})]}
T == {RandomElement(IF Len(hist) >= 0 THEN {0, 1, 2, 3, 6, 9} ELSE {})}
GFlux == Query /\ dirok /\ Same /\ \E x \in Rnd, t \in T : Log([op |-> "flux", x |-> x, t |-> t])
GResid == kind \in {"elliptic", "parabolic"} /\ Query /\ dirok /\ Same
            /\ \E x \in Rnd, t \in T : Log([op |-> "resid", x |-> x, t |-> t])
GErr == kind \in {"elliptic", "parabolic"} /\ Query /\ Same
            /\ \E x \in Rnd, t \in T : Log([op |-> "err", x |-> x, t |-> t])
GMat == kind = "elliptic" /\ Query /\ Same /\ \E t \in T : Log([op |-> "mat", t |-> t])
GMass == kind = "mass" /\ Query /\ Same /\ \E x \in Rnd, t \in T : Log([op |-> "mass", x |-> x, t |-> t])
GJac == kind = "nonlinear" /\ Query /\ Same /\ \E x \in Rnd, y \in Rnd, t \in T, s \in T :
            Log([op |-> "jac", x |-> x, y |-> y, t |-> t, s |-> s])
GDirRead == Same /\ \E n \in 0..3 :
              LET s == [k \in 1..n |-> RandomElement(0..(NDof - 1))] IN
              ReadDirichlet(s) /\ Log([op |-> "dirread", idx |-> s])
GDirGet == par.edge /\ kind \in {"mass", "shifted"} /\ Query /\ Same /\ Log([op |-> "dirget"])
GSetData == Same /\ \E x \in Rnd, t \in T : SetData(x, t) /\ Log([op |-> "setdata", x |-> x, t |-> t])
GInitial == Same /\ kind \in {"parabolic", "nonlinear"}
              /\ \E x \in Rnd, t \in T : /\ IF kind = "parabolic" THEN MakeInitial(t) ELSE Query
                                         /\ Log([op |-> "init", x |-> x, t |-> t])
GRefine == Same /\ \E L \in 1..Len(levels) : L # lvl /\ SetRefinement(L) /\ Log([op |-> "setref", L |-> L])
GObs == Query /\ Same /\ \E o \in {"size", "getref"} : Log([op |-> o])
GNext == Len(hist) < Depth /\ (GFlux \/ GResid \/ GErr \/ GMat \/ GMass \/ GJac \/ GDirRead \/ GDirGet
           \/ GSetData \/ GInitial \/ GRefine \/ GObs)
GSpec == GInit /\ [][GNext]_gvars
Emit == Len(hist) = Depth => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
