------------------------------ MODULE HyperMesh ------------------------------
(* Hypergraphs embedded in space, with uniform refinement.                    *)
(*                                                                            *)
(* A structured hypergraph consists of all k-dimensional cells of a Cartesian *)
(* grid; a file hypergraph of an explicit list of parallelepipeds.  Either is *)
(* refined by dividing each coarse hyperedge into r^k congruent ones.         *)
(*                                                                            *)
(* All points are given in doubled lattice coordinates: a coarse unit has     *)
(* length 2r, the centre of a cell has odd and its grid lines have even       *)
(* coordinates in the directions in which the cell extends.                   *)
EXTENDS VUtil
VARIABLES kind,   \* "none", "cubic" or "file"
          k,      \* dimension of a hyperedge
          nd,     \* dimension of space
          grid,   \* cubic: number of coarse cells per direction
          file,   \* file: the coarse hypergraph as read
          r       \* number of subintervals per direction
mvars == <<kind, k, nd, grid, file, r>>

Odd(x) == x % 2 = 1
Dirs == 1..nd
AddP(p, q) == [i \in 1..Len(p) |-> p[i] + q[i]]
SubP(p, q) == [i \in 1..Len(p) |-> p[i] - q[i]]
MulP(a, p) == [i \in 1..Len(p) |-> a * p[i]]
Dot(p, q)  == Sum([i \in 1..Len(p) |-> p[i] * q[i]])
RECURSIVE Tuples(_, _)
Tuples(S, m) == IF m = 0 THEN {<<>>} ELSE {Append(t, x) : t \in Tuples(S, m - 1), x \in S}
Shift(p, d, a) == [p EXCEPT ![d] = @ + a]

(* ------------------------------------------------------------ structured   *)
Extent(p) == {d \in Dirs : Odd(p[d])}
MaxC == FoldLeft(Max2, 0, grid) * 2 * r
LatticeOf(m, rr) ==           \* all m-cells of the grid refined in the extent directions
  {p \in Tuples(0..MaxC, nd) :
     /\ \A d \in Dirs : p[d] <= 2 * grid[d] * rr
     /\ Cardinality(Extent(p)) = m
     /\ \A d \in Dirs \ Extent(p) : p[d] % (2 * rr) = 0}
CubicCells == LatticeOf(k, r)
CellFaces(c) == {Shift(c, d, a) : d \in Extent(c), a \in {-1, 1}}
CubicFaces == UNION {CellFaces(c) : c \in CubicCells}
(* A face of the refined cell c is part of a face of the coarse cell.       *)
NormalDir(c, f) == CHOOSE d \in Dirs : c[d] # f[d]
OnCoarseFace(c, f) == f[NormalDir(c, f)] % (2 * r) = 0
OnLow(f, d) == f[d] = 0
OnUp(f, d)  == f[d] = 2 * grid[d] * r
CubicType(c, f) ==
  IF ~OnCoarseFace(c, f) THEN 0
  ELSE Sum([d \in Dirs |-> IF Odd(f[d]) THEN 0
                           ELSE IF OnLow(f, d) THEN IPow(3, d - 1)
                           ELSE IF OnUp(f, d) THEN 2 * IPow(3, d - 1) ELSE 0])

(* ------------------------------------------------------------ from a file  *)
Pt(i) == file.points[i + 1]
Origin(e) == Pt(file.corners[e][1])
Spans(e) == [j \in 1..k |-> SubP(Pt(file.corners[e][IPow(2, j - 1) + 1]), Origin(e))]
RECURSIVE AddAll(_, _)
AddAll(p, s) == IF s = <<>> THEN p ELSE AddAll(AddP(p, Head(s)), Tail(s))
SubCentre(e, a) == AddAll(MulP(2 * r, Origin(e)), [j \in 1..k |-> MulP(2 * a[j] + 1, Spans(e)[j])])
SubFace(e, a, j, side) == AddP(SubCentre(e, a), MulP(2 * side - 1, Spans(e)[j]))
Others(a, j) == SubSeq(a, 1, j - 1) \o SubSeq(a, j + 1, Len(a))
(* The identity of a face: a part of a given hypernode, or inside one coarse hyperedge. *)
FaceKey(e, a, j, side) ==
  LET q == a[j] + side IN
  IF q = 0 THEN <<"node", file.nodes[e][2 * j - 1], 0, 0, Others(a, j)>>
  ELSE IF q = r THEN <<"node", file.nodes[e][2 * j], 0, 0, Others(a, j)>>
  ELSE <<"inner", e, j, q, Others(a, j)>>
FileType(e, a, j, side) ==
  LET q == a[j] + side IN IF q = 0 THEN file.types[e][2 * j - 1] ELSE IF q = r THEN file.types[e][2 * j] ELSE 0
SubIdx == Tuples(0..(r - 1), k)
NFileNodes == file.nN * IPow(r, k - 1) + Len(file.nodes) * k * (r - 1) * IPow(r, k - 1)

(* ------------------------------------------------------------ transitions  *)
NewCubic(kk, n) == /\ kind' = "cubic" /\ k' = kk /\ nd' = Len(n) /\ grid' = n /\ r' = 1 /\ file' = <<>>
NewFile(kk, n, f) == /\ kind' = "file" /\ k' = kk /\ nd' = n /\ file' = f /\ r' = 1 /\ grid' = <<>>
Refine(l) == /\ kind # "none" /\ l >= 1 /\ r' = l /\ UNCHANGED <<kind, k, nd, grid, file>>
=============================================================================
