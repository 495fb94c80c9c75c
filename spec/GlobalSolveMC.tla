---------------------------- MODULE GlobalSolveMC ----------------------------
(* Meshes of boxes (integer sides, all divisions): the numbers of unknowns,    *)
(* the sums over the hyperedges, and on intervals the whole system: polynomial *)
(* solutions are solutions on every mesh, and there is no other one.           *)
EXTENDS GlobalSolve
CONSTANTS MaxCells, MaxUnit, MaxLam, MaxDim
VARIABLE lam          \* traces at the interior points of an interval; values at both ends are zero
mvars == <<cell, old, smooth, mass, tr, mesh, held, lam>>
\* boxes whose hyperedges have sides q[k]
Unit_(K, k, a) == [d \in 1..K |-> IF d = k THEN a ELSE 0]
Box(K, q, m, p) == [p |-> p, K |-> K, N |-> K, org |-> Zeros(K), span |-> [k \in 1..K |-> Unit_(K, k, q[k] * Fine(m)[k])],
                    types |-> [f \in 1..(2 * K) |-> IF f % 2 = 1 THEN 1 ELSE 0], tau |-> 1, t |-> 0]
Small(K) == IF K = 1 THEN 1..MaxUnit ELSE 1..2
Start_ == \E K \in 1..MaxDim, r \in 1..2 : \E n \in [1..K -> 1..2] : \E q \in [1..K -> Small(K)], p \in 0..2 :
           /\ mesh = [n |-> n, r |-> r] /\ cell = Box(K, q, mesh, p)
Init == /\ Start_ /\ lam = IF cell.K = 1 THEN Zeros(Fine(mesh)[1] - 1) ELSE <<>>
        /\ held = NoTime /\ old = NoTime /\ smooth = FALSE /\ mass = 0 /\ tr = <<>>
Raise(i, s) == /\ Abs(lam[i] + s) <= MaxLam /\ lam' = [lam EXCEPT ![i] = @ + s]
               /\ UNCHANGED <<cell, old, smooth, mass, tr, mesh, held>>
\* finer meshes of the same interval or box
Finer == /\ mesh.r < MaxCells /\ \A k \in 1..cell.K : cell.span[k][k] % (mesh.n[k] * (mesh.r + 1)) = 0
         /\ Refine(mesh.r + 1) /\ lam' = IF cell.K = 1 THEN Zeros(Fine(mesh')[1] - 1) ELSE <<>>
Next == Finer \/ \E i \in 1..Len(lam), s \in {-1, 1} : Raise(i, s)
Spec == Init /\ [][Next]_mvars

(* ------------------------------------------------------------ hyperedges  *)
N_ == Fine(mesh)
Spots == {a \in [1..cell.K -> 0..(Max2(MaxCells, 2) * 2)] : \A k \in 1..cell.K : a[k] < N_[k]}
Edge(k) == cell.span[k][k] \div N_[k]
Part(a) == [cell EXCEPT !.org = [d \in 1..cell.K |-> cell.org[d] + a[d] * Edge(d)],
                        !.span = [k \in 1..cell.K |-> Unit_(cell.K, k, Edge(k))]]
\* a face is known by its midpoint
Mid(c, f) == Pt(c, [k \in 1..c.K |-> IF k = f \div 2 + 1 THEN 2 * (f % 2) ELSE 1])
FaceSet == UNION {{Mid(Part(a), f) : f \in 0..(2 * cell.K - 1)} : a \in Spots}
OnSide(X, f) == X[f \div 2 + 1] = 2 * (cell.org[f \div 2 + 1] + (f % 2) * cell.span[f \div 2 + 1][f \div 2 + 1])
Low == [cell EXCEPT !.p = 0]
Counted == lam = Zeros(Len(lam)) =>
  /\ Unknowns(cell, mesh) = PerFace(cell) * Cardinality(FaceSet)
  /\ \A G \in SUBSET (1..(2 * cell.K)) :
       Prescribed(Low, mesh, G) = Cardinality({X \in FaceSet : \E f \in G : OnSide(X, f - 1)})
VolumesAddUp == lam = Zeros(Len(lam)) => Volume(cell) = Cardinality(Spots) * Volume(Part(CHOOSE a \in Spots : TRUE))
\* the error of a linear function is the sum over the hyperedges
Square(c, e) == LET v(r) == Eval(e, Pt(c, r), 0, 1) mid == [k \in 1..c.K |-> 1]
                    g == [k \in 1..c.K |-> v([mid EXCEPT ![k] = 2]) - v([mid EXCEPT ![k] = 0])] IN
                Volume(c) * (12 * v(mid) * v(mid) + Dot(g, g))
Lin == IF cell.K = 1 THEN <<<<2, 1, 0>>, <<-3, 0, 0>>>> ELSE IF cell.K = 2 THEN <<<<2, 1, 0, 0>>, <<-1, 0, 1, 0>>, <<3, 0, 0, 0>>>>
       ELSE <<<<1, 1, 0, 0, 0>>, <<-1, 0, 1, 0, 0>>, <<2, 0, 0, 1, 0>>>>
ErrorsAddUp == lam = Zeros(Len(lam)) => Square(cell, Lin) = LET q == SetToSeq(Spots) IN Sum([i \in 1..Len(q) |-> Square(Part(q[i]), Lin)])

(* ------------------------------------------- the whole system of intervals *)
Full == IF cell.K = 1 THEN <<0>> \o lam \o <<0>> ELSE <<>>
\* 2 h kinv times the residual at interior point i (0-based position i), traces x, source f0
Residual(x, i, f0, kinv) ==
  LET c == Part([k \in 1..1 |-> 0]) IN
  LineFlux(c, <<x[i], x[i + 1]>>, 1, f0, kinv, 1)[1] + LineFlux(c, <<x[i + 1], x[i + 2]>>, 0, f0, kinv, 1)[1]
Inner == 1..Len(lam)
Unique == (cell.K = 1 /\ \A i \in Inner : Residual(Full, i, 0, 1) = 0) => lam = Zeros(Len(lam))
\* u = a + b x + c x^2 solves - u'' = kinv f0 with kinv f0 = - 2 c
Exactness == (cell.K = 1 /\ lam = Zeros(Len(lam))) =>
  \A a \in -2..2, b \in -2..2, c \in -2..2 :
    LET x == [k \in 1..(Len(lam) + 2) |-> LET s == (k - 1) * Edge(1) IN a + b * s + c * s * s] IN
    \A i \in Inner : Residual(x, i, -(2 * c), 1) = 0 /\ (Edge(1) > 0 /\ c # 0 => Residual(x, i, 0, 1) # 0)
=============================================================================
