----------------------------- MODULE GlobalSolve -----------------------------
(* A whole problem: a parallelepiped (cell, as in LocalSolver) is divided into *)
(* mesh.n[k] * mesh.r hyperedges in direction k; the skeletal unknowns of all  *)
(* hyperedges form one system.  A polynomial that solves the equation on the   *)
(* parallelepiped is the discrete solution on every mesh, at every time.       *)
EXTENDS LocalPlate, LocalFlow, LocalAdvect
VARIABLES mesh,     \* [n: hyperedges of the coarse mesh, r: refinement]
          held      \* time of the solution in hand, NoTime if there is none
gvars == <<cell, old, smooth, mass, tr, mesh, held>>
Others_(n, d) == Prod([k \in 1..Len(n) |-> IF k = d THEN 1 ELSE n[k]])
Fine(m) == Scale(m.r, m.n)                                       \* hyperedges in each direction
\* skeletal faces orthogonal to direction d; of them Others_ on each of the two sides
FacesOf(n, d) == (n[d] + 1) * Others_(n, d)
PerFace(c) == IPow(c.p + 1, c.K - 1)
\* unknowns of one field; gone: the sides whose value is prescribed
Unknowns(c, m) == PerFace(c) * Sum([d \in 1..c.K |-> FacesOf(Fine(m), d)])
Prescribed(c, m, gone) ==
  PerFace(c) * Sum([f \in 1..(2 * c.K) |-> IF f \in gone THEN Others_(Fine(m), (f + 1) \div 2) ELSE 0])
Sides(c, P(_)) == {f \in 1..(2 * c.K) : P(c.types[f])}
\* nothing of P leaves through side f (at any point of the grid on it)
NoFlux(c, P, f) == \A i \in 0..(IPow(3, c.K - 1) - 1) :
  Dot(Grad(P, Pt(c, FaceRef(c.K, f - 1, i)), c.t, 3, c.N), Conormal(c, (f + 1) \div 2)) = 0
\* advection: there is wind everywhere, in one direction along each axis; it enters and leaves where it may
Blowing(c, t) == \A f \in 0..(2 * c.K - 1) : LET s == Sign(MidWind(c, f, t)) IN
  /\ s # 0 /\ \A X \in Grid(c) : Sign(Wind(c, f, X, t)) = s
  /\ IF s > 0 THEN Outlet(c, f, t) ELSE Shut(c, f, t)

(* ------------------------------------------------------------- actions  *)
Open(c, n) == /\ cell' = c /\ mesh' = [n |-> n, r |-> 1] /\ held' = NoTime
              /\ old' = NoTime /\ smooth' = FALSE /\ mass' = 0 /\ tr' = <<>>
Refine(r) == /\ r > 0 /\ mesh' = [mesh EXCEPT !.r = r] /\ held' = NoTime /\ old' = NoTime
             /\ UNCHANGED <<cell, smooth, mass, tr>>
Remember(t) == old' = t /\ UNCHANGED <<cell, smooth, mass, tr, mesh, held>>
Hold(t) == held' = t /\ UNCHANGED <<cell, old, smooth, mass, tr, mesh>>
=============================================================================
