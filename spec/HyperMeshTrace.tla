---------------------------- MODULE HyperMeshTrace ---------------------------
(* Is a recorded history of the real hypergraph classes a behaviour of HyperMesh? *)
EXTENDS HyperMesh, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, edges
vars == <<mvars, l, edges>>
Ev == Trace[l]
Is(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1
TraceInit == /\ kind = "none" /\ k = 0 /\ nd = 0 /\ grid = <<>> /\ file = <<>> /\ r = 1
             /\ l = 1 /\ edges = <<>>

SpanOf(ed, j) == SubP(ed.f[2 * j], ed.f[2 * j - 1])
IsUnit(p, c) == \E d \in Dirs : Odd(c[d]) /\ p = [x \in Dirs |-> IF x = d THEN 2 ELSE 0]

CubicQuery(E, nE, nN) ==
  LET cells == {E[i].c : i \in 1..Len(E)}
      pairs == UNION {{<<E[i].f[j], E[i].nodes[j]>> : j \in 1..(2 * k)} : i \in 1..Len(E)}
      faces == {p[1] : p \in pairs}
  IN /\ Len(E) = nE /\ Cardinality(cells) = nE /\ cells = CubicCells
     /\ \A i \in 1..nE :
          /\ {E[i].f[j] : j \in 1..(2 * k)} = CellFaces(E[i].c)
          /\ \A j \in 1..k : IsUnit(SpanOf(E[i], j), E[i].c)
     /\ Cardinality(pairs) = Cardinality(faces)
     /\ {p[2] : p \in pairs} = 0..(nN - 1)
     /\ nN = Cardinality(faces)
CubicTypes(E) == \A i \in 1..Len(E) : \A j \in 1..(2 * k) : E[i].types[j] = CubicType(E[i].c, E[i].f[j])

CoarseOf(i) == ((i - 1) \div IPow(r, k)) + 1
FileQuery(E, nE, nN) ==
  LET nC == Len(file.nodes)
      sub == [i \in 1..nE |-> {a \in SubIdx : SubCentre(CoarseOf(i), a) = E[i].c}]
      pos == [i \in 1..nE |-> CHOOSE a \in sub[i] : TRUE]
      pairs == UNION {{<<FaceKey(CoarseOf(i), pos[i], j, s), E[i].nodes[2 * j - 1 + s]>> : j \in 1..k, s \in {0, 1}}
                      : i \in 1..nE}
  IN /\ Len(E) = nE /\ nE = nC * IPow(r, k)
     /\ \A i \in 1..nE : sub[i] # {}
     /\ \A e \in 1..nC : {pos[i] : i \in {x \in 1..nE : CoarseOf(x) = e}} = SubIdx
     /\ \A i \in 1..nE : \A j \in 1..k : \A s \in {0, 1} :
          E[i].f[2 * j - 1 + s] = SubFace(CoarseOf(i), pos[i], j, s)
     /\ nN = NFileNodes
     /\ Cardinality(pairs) = Cardinality({p[1] : p \in pairs})
     /\ Cardinality(pairs) = Cardinality({p[2] : p \in pairs})
     /\ \A p \in pairs : p[2] \in 0..(nN - 1)
     /\ r = 1 => \A i \in 1..nE : E[i].nodes = file.nodes[i]
     /\ \A i \in 1..nE : E[i].p = (IF file.props = <<>> THEN <<>> ELSE file.props[CoarseOf(i)])
FileTypes(E) ==
  \A i \in 1..Len(E) : \A a \in SubIdx :
     (SubCentre(CoarseOf(i), a) = E[i].c) =>
        \A j \in 1..k : \A s \in {0, 1} : E[i].types[2 * j - 1 + s] = FileType(CoarseOf(i), a, j, s)

TNewCubic == Is("newcubic") /\ NewCubic(Ev.k, Ev.n) /\ edges' = <<>>
TNewFile == Is("newfile") /\ NewFile(Ev.k, Ev.nd, Ev.file) /\ edges' = <<>>
TRef == Is("ref") /\ Refine(Ev.L) /\ edges' = <<>>
Checked(p) == IOEnv.CHECK = "all" \/ IOEnv.CHECK = p
TQuery ==
  /\ Is("query") /\ UNCHANGED mvars /\ edges' = Ev.edges
  /\ Ev.r = r /\ Ev.rg = r /\ Ev.rn = r /\ Ev.gE = Ev.nE /\ Ev.gN = Ev.nN
  /\ (Checked("incidence") => (IF kind = "cubic" THEN CubicQuery(Ev.edges, Ev.nE, Ev.nN)
                                                  ELSE FileQuery(Ev.edges, Ev.nE, Ev.nN))) = TRUE
  /\ (Checked("types") => (IF kind = "cubic" THEN CubicTypes(Ev.edges) ELSE FileTypes(Ev.edges))) = TRUE

(* ----------------------------------------------------------- geometry      *)
Bit(j, d) == (j \div IPow(2, d - 1)) % 2
Digit(j, d) == (j \div IPow(3, d - 1)) % 3
Gram(S) == \* squared volume of the parallelepiped spanned by the sequence S
  LET g(i, j) == Dot(S[i], S[j]) IN
  IF Len(S) = 0 THEN 1
  ELSE IF Len(S) = 1 THEN g(1, 1)
  ELSE IF Len(S) = 2 THEN g(1, 1) * g(2, 2) - g(1, 2) * g(2, 1)
  ELSE g(1, 1) * (g(2, 2) * g(3, 3) - g(2, 3) * g(3, 2)) - g(1, 2) * (g(2, 1) * g(3, 3) - g(2, 3) * g(3, 1))
       + g(1, 3) * (g(2, 1) * g(3, 2) - g(2, 2) * g(3, 1))
Half(p) == [i \in 1..Len(p) |-> p[i] \div 2]
WithoutExt(E) == Prod([d \in Dirs |-> IF d \in E THEN 1 ELSE grid[d] * r])
NormalSigns(i, j) == IF j # (i + 1) \div 2 THEN 0 ELSE IF i % 2 = 1 THEN -1 ELSE 1
GeoOK(g) ==
  LET ed == edges[g.e + 1]
      S == [j \in 1..k |-> SpanOf(ed, j)]
      At(t) == AddAll(MulP(2, ed.c), [j \in 1..k |-> MulP(t[j] - 1, S[j])]) \* twice the point, t in 0..2
      BT(b, j) == [d \in 1..k |-> IF d = (b \div 2) + 1 THEN 2 * (b % 2)
                                  ELSE Digit(j, IF d > (b \div 2) + 1 THEN d - 1 ELSE d)]
      P3 == IPow(3, k - 1)
  IN /\ Len(g.corners) = IPow(2, k)
     /\ \A j \in 1..Len(g.corners) : MulP(2, g.corners[j]) = At([d \in 1..k |-> 2 * Bit(j - 1, d)])
     /\ \A j \in 1..Len(g.lex) : MulP(2, g.lex[j]) = At([d \in 1..k |-> Digit(j - 1, d)])
     /\ \A b \in 0..(2 * k - 1) : \A j \in 0..(P3 - 1) : MulP(2, g.blex[b * P3 + j + 1]) = At(BT(b, j))
     /\ g.span = S /\ g.bary = ed.f /\ g.qr = S
     /\ \A i, j \in Dirs : Close(g.qtq[(i - 1) * nd + j], IF i = j THEN 1000000 ELSE 0, 2)
     /\ IF kind = "cubic"
        THEN /\ g.area = WithoutExt(Extent(ed.c))
             /\ \A i \in 1..(2 * k) : g.farea[i] = WithoutExt(Extent(ed.f[i]))
             /\ g.inorm = g.lnorm
        ELSE LET H == [j \in 1..k |-> Half(S[j])] IN
             /\ g.area = Gram(H)
             /\ \A i \in 1..(2 * k) : g.farea[i] = Gram(Others(H, (i + 1) \div 2))
             \* known finding: columns of Q instead of outer normals (inward, and not normal to oblique faces)
             /\ \A i \in 1..k : \A j \in 1..k :
                  /\ g.inorm[2 * i - 1][j] = -g.inorm[2 * i][j]
                  /\ i = j => g.inorm[2 * i][j] # 0
                  /\ j < i => g.inorm[2 * i][j] = 0
     /\ \A i \in 1..(2 * k) : \A j \in 1..k : g.lnorm[i][j] = NormalSigns(i, j)
     /\ \A i \in 1..Len(g.nlen) : Close(g.nlen[i], 1000000, 2)
     /\ \A i \in 1..Len(g.onorm) : g.onorm[i] = 0
TGeo == Is("geo") /\ UNCHANGED <<mvars, edges>> /\ (Checked("geometry") => GeoOK(Ev)) = TRUE
TRefuse == /\ Is("refuse") /\ UNCHANGED <<mvars, edges>>
           /\ Ev.topo = (IF Ev.idx < Ev.nE THEN "ok" ELSE "abort")
           /\ Ev.node = (IF Ev.idx < Ev.nE THEN "ok" ELSE "abort")
TraceNext == TNewCubic \/ TNewFile \/ TRef \/ TQuery \/ TGeo \/ TRefuse
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
