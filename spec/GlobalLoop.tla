----------------------------- MODULE GlobalLoop -----------------------------
(* The global loops of HyperHDG: a hypergraph whose hyperedges carry local    *)
(* solvers, global vectors of hypernode degrees of freedom, hyperedge data    *)
(* that survives between calls, a set of Dirichlet degrees of freedom, and a  *)
(* refinement level.                                                          *)
(*                                                                            *)
(* The specification has two grains.  The coarse one defines what a finished  *)
(* call returns (the operators ...Result); the fine one is the loop: a call   *)
(* begins, visits the hyperedges one after the other IN ANY ORDER, gathers,   *)
(* applies the local solver, scatters, and finishes.  TLC shows that the fine *)
(* grain refines the coarse one for every order; recorded executions of the   *)
(* C++ classes are compared with the coarse one (GlobalLoopTrace).            *)
EXTENDS VUtil, TLC

VARIABLES
  kind,    \* "elliptic", "parabolic", "mass", "shifted", "nonlinear"; "none" before construction
  par,     \* [f |-> faces per hyperedge, d |-> dofs per hypernode, edge |-> solver sees hyperedge,
           \*  cons |-> initial values agree between hyperedges,
           \*  src, geo |-> what the local solver and the geometry were constructed with]
  levels,  \* per refinement level: [nN, inc, types]
  lvl,     \* current refinement level
  dir,     \* Dirichlet degrees of freedom (zero based)
  dirok,   \* dir was declared for the current refinement level
  data     \* data stored per hyperedge
sysvars == <<kind, par, levels, lvl, dir, dirok, data>>

G     == levels[lvl]
NE    == Len(G.inc)
NN    == G.nN
NDof  == NN * par.d
Dof(node, i) == node * par.d + i           \* zero based hypernode, component -> zero based dof
Faces == 1..par.f
Comps == 1..par.d

----------------------------------------------------------------------------
(* The local solver used for conformance (the C++ mock computes the same).   *)
(* e, n, i, m, j zero based.                                                  *)
CoefE(e, n, i, m, j, g, ty, t) ==
  ((23 * e + 5 * n + 3 * i + 11 * m + 13 * j + 2 * g * (m + 1) + ty * (n + 2) + t * (i + j + 1)) % 9) - 4
CoefN(n, i, m, j, t) == ((5 * n + 3 * i + 11 * m + 13 * j + t * (i + j + 1)) % 9) - 4
Coef(e, n, i, m, j, t) ==
  IF par.edge THEN CoefE(e, n, i, m, j, lvl + par.geo, G.types[e + 1][n + 1], t) ELSE CoefN(n, i, m, j, t)
Source(e, n, i, t) ==
  (((IF par.edge THEN 3 * e ELSE 0) + 2 * n + 5 * i + t) % 7) - 3
    + (IF par.edge THEN data[e + 1] ELSE 0) + par.src

\* Values of a global vector at the faces of hyperedge e: [face][component].
Gather(x, e) == [n \in Faces |-> [i \in Comps |-> x[Dof(G.inc[e][n], i - 1) + 1]]]
\* Local linear operator.
LocLin(e, loc, t) ==
  [n \in Faces |-> [i \in Comps |->
     Sum([q \in 1..(par.f * par.d) |->
       LET m == (q - 1) \div par.d  j == (q - 1) % par.d IN
       Coef(e - 1, n - 1, i - 1, m, j, t) * loc[m + 1][j + 1]])]]
LocAff(e, loc, t) ==
  LET L == LocLin(e, loc, t) IN
  [n \in Faces |-> [i \in Comps |-> L[n][i] + Source(e - 1, n - 1, i - 1, t)]]
LocJac(e, loc, val, t, s) ==
  LET L == LocLin(e, loc, t)  V == LocLin(e, val, s + 1) IN
  [n \in Faces |-> [i \in Comps |-> L[n][i] + 2 * V[n][i]]]

\* Scatter one hyperedge's values into a global vector (adding).
Scatter(acc, e, loc) ==
  [k \in 1..NDof |->
     acc[k] + Sum([n \in Faces |->
        IF G.inc[e][n] = (k - 1) \div par.d THEN loc[n][((k - 1) % par.d) + 1] ELSE 0])]

\* Assembly of all hyperedges' local vectors at once.
Assemble(loc) ==
  [k \in 1..NDof |->
     Sum([q \in 1..(NE * par.f) |->
        LET e == ((q - 1) \div par.f) + 1  n == ((q - 1) % par.f) + 1 IN
        IF G.inc[e][n] = (k - 1) \div par.d THEN loc[e][n][((k - 1) % par.d) + 1] ELSE 0])]
Clean(v) == IF kind = "elliptic" THEN [k \in 1..Len(v) |-> IF (k - 1) \in dir THEN 0 ELSE v[k]] ELSE v

FluxRaw(x, t)     == Assemble([e \in 1..NE |-> LocLin(e, Gather(x, e), t)])
FluxResult(x, t)  == Clean(FluxRaw(x, t))
ResidResult(x, t) == Clean(Assemble([e \in 1..NE |-> LocAff(e, Gather(x, e), t)]))
MassResult(x, t)  == Assemble([e \in 1..NE |-> LocLin(e, Gather(x, e), t + 100)])
JacResult(x, t, y, s) ==
  Assemble([e \in 1..NE |-> LocJac(e, Gather(x, e), Gather(y, e), t, s)])

\* Sparse matrix in coordinate format: entries with equal position add up.
MatEntry(r, c, t) ==   \* zero based
  Sum([q \in 1..(NE * par.f * par.f) |->
     LET e == ((q - 1) \div (par.f * par.f)) + 1
         n == (((q - 1) \div par.f) % par.f) + 1
         m == ((q - 1) % par.f) + 1 IN
     IF G.inc[e][n] = r \div par.d /\ G.inc[e][m] = c \div par.d
     THEN Coef(e - 1, n - 1, r % par.d, m - 1, c % par.d, t) ELSE 0])
CooEntry(rows, cols, vals, r, c) ==
  Sum([q \in 1..Len(vals) |-> IF rows[q] = r /\ cols[q] = c THEN vals[q] ELSE 0])
MatOk(rows, cols, vals, t) ==
  /\ Len(rows) = Len(vals) /\ Len(cols) = Len(vals)
  /\ \A q \in 1..Len(vals) : rows[q] \in 0..(NDof - 1) /\ cols[q] \in 0..(NDof - 1)
  \* positions that neither occur in the list nor belong to one hyperedge are zero on both sides
  /\ \A p \in {<<rows[q], cols[q]>> : q \in 1..Len(vals)} \cup
            {<<Dof(G.inc[e][n], i - 1), Dof(G.inc[e][m], j - 1)>> : e \in 1..NE, n \in Faces, m \in Faces, i \in Comps, j \in Comps} :
       CooEntry(rows, cols, vals, p[1], p[2]) = MatEntry(p[1], p[2], t)

\* Errors: [sum, max] over hyperedges, post-processed.
LocErr(e, x, t) ==
  LET loc == Gather(x, e) IN
  <<Sum([q \in 1..(par.f * par.d) |-> q * loc[((q - 1) \div par.d) + 1][((q - 1) % par.d) + 1]])
      + t + (IF par.edge THEN data[e] + e - 1 ELSE 0),
    loc[1][1] + t>>
ErrResult(x, t) ==
  LET errs == [e \in 1..NE |-> LocErr(e, x, t)] IN
  <<2 * (5 + Sum([e \in 1..NE |-> errs[e][1]])) + 1,
    FoldLeft(Max2, -50, [e \in 1..NE |-> errs[e][2]])>>

\* Hyperedge data of the time dependent loops.
NewData(e, x, t) ==
  LET loc == Gather(x, e) IN
  (3 * data[e] + Sum([q \in 1..(par.f * par.d) |->
      q * loc[((q - 1) \div par.d) + 1][((q - 1) % par.d) + 1]]) + t + e - 1 + 2018) % 1009
SetDataResult(x, t) == [e \in 1..NE |-> NewData(e, x, t)]
InitDataResult(t)   == [e \in 1..NE |-> 5 * (e - 1) + t + 1]
InitVal(e, n, i, t) ==  \* zero based n, i
  IF ~par.edge THEN 10 * n + i + t
  ELSE 100 * G.inc[e][n + 1] + 10 * i + t + (IF par.cons THEN 0 ELSE 7 * (e - 1))
NonlinInitVal(e, n, i, x, t) ==
  2 * x[Dof(G.inc[e][n + 1], i) + 1] + i + t
   + (IF par.edge THEN (IF par.cons THEN G.inc[e][n + 1] ELSE 7 * (e - 1)) ELSE 0)
\* What a dof may hold after initialisation: the value of one of the hyperedges that meet there.
InitOk(res, x, t) ==
  /\ Len(res) = NDof
  /\ \A k \in 1..NDof :
       LET node == (k - 1) \div par.d  i == (k - 1) % par.d
           cand == {<<e, n>> \in (1..NE) \X Faces : G.inc[e][n] = node} IN
       IF cand = {} THEN res[k] = 0
       ELSE \E c \in cand : res[k] = IF kind = "nonlinear"
                                     THEN NonlinInitVal(c[1], c[2] - 1, i, x, t)
                                     ELSE InitVal(c[1], c[2] - 1, i, t)

\* Degrees of freedom at hypernodes a hyperedge calls Dirichlet (type 1), ascending.
DirNodes == {G.inc[e][n] : <<e, n>> \in {p \in (1..NE) \X Faces : G.types[p[1]][p[2]] = 1}}
DirSet   == {Dof(nd, i - 1) : nd \in DirNodes, i \in Comps}
SortedSeq(S) == SetToSortSeq(S, <)

----------------------------------------------------------------------------
(* Coarse actions: one per public call.                                       *)
New(k, p, ls) ==
  /\ kind' = k /\ par' = p /\ levels' = ls /\ lvl' = 1 /\ dir' = {} /\ dirok' = TRUE
  /\ data' = Zeros(Len(ls[1].inc))
Query == kind # "none" /\ UNCHANGED sysvars
ReadDirichlet(s) ==
  /\ kind = "elliptic"
  /\ \A k \in 1..Len(s) : s[k] \in 0..(NDof - 1)
  /\ dir' = {s[k] : k \in 1..Len(s)} /\ dirok' = TRUE
  /\ UNCHANGED <<kind, par, levels, lvl, data>>
SetRefinement(L) ==
  /\ kind # "none" /\ L \in 1..Len(levels)
  /\ lvl' = L /\ data' = Zeros(Len(levels[L].inc))
  /\ dirok' = (dir = {} \/ (dirok /\ L = lvl))
  /\ UNCHANGED <<kind, par, levels, dir>>
SetData(x, t) ==
  /\ kind = "parabolic"
  /\ data' = IF par.edge THEN SetDataResult(x, t) ELSE data
  /\ UNCHANGED <<kind, par, levels, lvl, dir, dirok>>
MakeInitial(t) ==
  /\ kind = "parabolic"
  /\ data' = IF par.edge THEN InitDataResult(t) ELSE data
  /\ UNCHANGED <<kind, par, levels, lvl, dir, dirok>>
=============================================================================
