----------------------------- MODULE HyperMeshMC -----------------------------
(* The numbering scheme: parts of coarse faces first, block by block, then the *)
(* faces created inside the coarse hyperedges.  Checked against the geometric  *)
(* identity of faces, for all small grids and refinement histories.            *)
EXTENDS HyperMesh, TLC
CONSTANTS Cases,  \* set of <<k, nd>>
          MaxN, MaxR, MaxSteps
VARIABLE steps
AllCases == {<<1, 1>>, <<1, 2>>, <<2, 2>>, <<1, 3>>, <<2, 3>>, <<3, 3>>}
Init == /\ \E c \in Cases : \E n \in Tuples(1..MaxN, c[2]) :
             kind = "cubic" /\ k = c[1] /\ nd = c[2] /\ grid = n
        /\ r = 1 /\ file = <<>> /\ steps = 0
DoRefine == steps < MaxSteps /\ steps' = steps + 1 /\ \E l \in 1..MaxR : l # r /\ Refine(l)
Next == DoRefine
Spec == Init /\ [][Next]_<<mvars, steps>>

RECURSIVE LessP(_, _)
LessP(p, q) == IF p = <<>> THEN FALSE ELSE Head(p) < Head(q) \/ (Head(p) = Head(q) /\ LessP(Tail(p), Tail(q)))
Rank(S, p) == Cardinality({q \in S : LessP(q, p)})
CoarseC(x) == IF Odd(x) THEN 2 * (x \div (2 * r)) + 1 ELSE x \div r
CoarseCell(c) == [d \in Dirs |-> IF Odd(c[d]) THEN 2 * (c[d] \div (2 * r)) + 1 ELSE c[d] \div r]
CoarseCellsAll == {CoarseCell(c) : c \in CubicCells}
CoarseFacesAll == UNION {{Shift(c, d, a) : d \in Extent(c), a \in {-1, 1}} : c \in CoarseCellsAll}
(* Lexicographic position of a face within the part of a coarse face. *)
Along(f) == LET E == SetToSortSeq(Extent(f), LAMBDA x, y : x < y) IN [j \in 1..Len(E) |-> (f[E[j]] \div 2) % r]
RECURSIVE Lex(_)
Lex(s) == IF s = <<>> THEN 0 ELSE Head(s) + r * Lex(Tail(s))
PerFace == IPow(r, k - 1)
PerElem == k * (r - 1) * IPow(r, k - 1)
\* direction number and coordinate of an inner face inside its coarse cell
InnerIdx(c, f) ==
  LET d == NormalDir(c, f)
      j == Cardinality({x \in Extent(c) : x < d})
      q == ((f[d] \div 2) % r) - 1
  IN j * (r - 1) * IPow(r, k - 1) + q * IPow(r, k - 1) + Lex(Along(f))
NumberOf(c, f) ==
  IF OnCoarseFace(c, f)
  THEN PerFace * Rank(CoarseFacesAll, [d \in Dirs |-> IF Odd(f[d]) THEN 2 * (f[d] \div (2 * r)) + 1 ELSE f[d] \div r])
       + Lex(Along(f))
  ELSE Cardinality(CoarseFacesAll) * PerFace + PerElem * Rank(CoarseCellsAll, CoarseCell(c)) + InnerIdx(c, f)
Numbering == UNION {{<<f, NumberOf(c, f)>> : f \in CellFaces(c)} : c \in CubicCells}

(* Invariants *)
NumberedOnce == LET N == Numbering IN
  /\ Cardinality(N) = Cardinality({p[1] : p \in N})           \* the same number from every side
  /\ {p[2] : p \in N} = 0..(Cardinality({p[1] : p \in N}) - 1) \* no gaps, no overlap
  /\ Cardinality(N) = Cardinality(CubicFaces)
Refined == Cardinality(CubicCells) = Cardinality(CoarseCellsAll) * IPow(r, k)
(* In a full-dimensional grid the boundary types mark exactly the faces with one hyperedge. *)
BoundaryMarked == k = nd =>
  \A f \in CubicFaces :
    LET own == {c \in CubicCells : f \in CellFaces(c)} IN
    /\ Cardinality(own) \in {1, 2}
    /\ (Cardinality(own) = 1) = (\E c \in own : CubicType(c, f) # 0)
    /\ \A c, b \in own : CubicType(c, f) = CubicType(b, f)
(* Types never depend on the hyperedge from which the face is looked at. *)
TypeOfFace == \A f \in CubicFaces :
    \A c, b \in {x \in CubicCells : f \in CellFaces(x)} : CubicType(c, f) = CubicType(b, f)
=============================================================================
