-------------------------- MODULE DenseAlgebraTrace --------------------------
EXTENDS DenseAlgebra, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Tol == IF IOEnv.PREC = "float" THEN 200 ELSE 4        \* in units of 1/10000
TraceDims == IF IOEnv.DIMS = "1,3,5" THEN {1, 3, 5} ELSE {1, 2, 3}
VARIABLE l
vars == <<regs, l>>
Ev == Trace[l]
Is(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1
TraceInit == regs = [n \in Names |-> Zeros(n[1] * n[2])] /\ l = 1
Keep == UNCHANGED regs
\* The register written holds what the operation defines; nothing else changes (checked by `dump').
Gives(v) == Put(Ev.d, v) /\ Ev.res = v
A == regs[Ev.a]
B == regs[Ev.b]
TSet  == Is("set") /\ Gives(Ev.v)
TFill == Is("fill") /\ Gives([k \in 1..(Ev.d[1] * Ev.d[2]) |-> Ev.v])
TZero == Is("zero") /\ Gives(Zeros(Ev.d[1] * Ev.d[2]))
TCopy == Is("copy") /\ Gives(A)
TMul  == Is("mul") /\ Gives(MulM(A, B, Ev.a[1], Ev.a[2], Ev.b[2]))
TUnfit == Is("unfit") /\ Gives(UnfitM(A, B, Ev.a[1], Ev.a[2], Ev.b[1], Ev.b[2]))
TTmm  == Is("tmm") /\ Gives(MulM(TransM(A, Ev.a[1], Ev.a[2]), B, Ev.a[2], Ev.a[1], Ev.b[2]))
TMmt  == Is("mmt") /\ Gives(MulM(A, TransM(B, Ev.b[1], Ev.b[2]), Ev.a[1], Ev.a[2], Ev.b[1]))
TAdd  == Is("add") /\ Gives(Map2(Spread(A, Ev.a[1], Ev.a[2], Ev.d[2]), Spread(B, Ev.b[1], Ev.b[2], Ev.d[2]), LAMBDA x, y : x + y))
TSub  == Is("sub") /\ Gives(Map2(Spread(A, Ev.a[1], Ev.a[2], Ev.d[2]), Spread(B, Ev.b[1], Ev.b[2], Ev.d[2]), LAMBDA x, y : x - y))
TIAdd == Is("iadd") /\ Gives(Map2(regs[Ev.d], Spread(B, Ev.b[1], Ev.b[2], Ev.d[2]), LAMBDA x, y : x + y))
TISub == Is("isub") /\ Gives(Map2(regs[Ev.d], Spread(B, Ev.b[1], Ev.b[2], Ev.d[2]), LAMBDA x, y : x - y))
THad  == (Is("had") \/ Is("ihad")) /\ Gives(Map2(A, B, LAMBDA x, y : x * y))
\* After a division by zero the target is indeterminate; the harness overwrites it with zeros.
THdiv == (Is("hdiv") \/ Is("ihdiv")) /\
  IF \E k \in 1..Len(B) : B[k] = 0 THEN Ev.st = "divzero" /\ Gives(Zeros(Len(A)))
  ELSE Ev.st = "ok" /\ (\A k \in 1..Len(A) : Divides(B[k], A[k])) = TRUE /\ Gives(Map2(A, B, LAMBDA x, y : Quot(x, y)))
TScal == Is("scal") /\
  LET s == Ev.s
      zero == (Ev.how \in {"m/s", "/="} /\ s = 0) \/ (Ev.how = "s/m" /\ \E k \in 1..Len(A) : A[k] = 0) IN
  IF zero THEN Ev.st = "divzero" /\ Gives(Zeros(Len(A)))
  ELSE /\ Ev.st = "ok"
       /\ Gives(Map1(A, LAMBDA x : CASE Ev.how \in {"s+m", "m+s", "+="} -> x + s
                                     [] Ev.how = "s-m" -> s - x
                                     [] Ev.how \in {"m-s", "-="} -> x - s
                                     [] Ev.how \in {"s*m", "m*s", "*="} -> s * x
                                     [] Ev.how = "s/m" -> Quot(s, x)
                                     [] Ev.how \in {"m/s", "/="} -> Quot(x, s)))
TTransp == Is("transp") /\ Gives(TransM(A, Ev.a[1], Ev.a[2]))
TDyad == Is("dyad") /\ Gives(DyadM(A, B))
TCross == Is("cross") /\ Gives(CrossM(A, B))
TDiag == Is("diag") /\ Gives(DiagM([k \in 1..5 |-> Ev.v], Ev.d[1], Ev.d[2]))
TDiagV == Is("diagv") /\ Gives(DiagM(A, Ev.d[1], Ev.d[2]))
TRep  == Is("rep") /\ Gives(RepM(A, Ev.d[1], Ev.d[2]))
TGetCol == Is("getcol") /\ Gives(ColM(A, Ev.a[1], Ev.j + 1))
TSetCol == Is("setcol") /\ Gives(SetColM(regs[Ev.d], Ev.d[1], Ev.j + 1, A))
TCmp  == Is("cmp") /\ Keep /\ Ev.eq = (A = B) /\ Ev.ne = (A # B) /\ Ev.lt = LexLess(A, B) /\ Ev.gt = LexLess(B, A)
           /\ Ev.sp = ScalarProd(A, B)
TQuery == Is("query") /\ Keep
  /\ LET r == Ev.a[1] c == Ev.a[2] IN
     /\ Ev.dims = <<r, c, r * c, r, c>>
     /\ Ev.rc = A /\ Ev.ix = A
     /\ Ev.shown = TransM(A, r, c)                   \* row by row
     /\ Ev.n1 = Norm1(A, r, c) /\ Ev.ni = NormInf(A, r, c) /\ Ev.prod = Prod(A)
     /\ (Ev.q2 # -1) => Ev.q2 = ScalarProd(A, A)
     /\ (Ev.q3 # -1) => Ev.q3 = Sum([k \in 1..Len(A) |-> Abs(A[k]) * A[k] * A[k]])
TDump == Is("dump") /\ Keep /\ (\A k \in 1..Len(Ev.all) : regs[Ev.all[k].x] = Ev.all[k].v) = TRUE
           /\ Len(Ev.all) = Cardinality(Names)
TRefuse == Is("refuse") /\ Keep /\
  LET r == Ev.a[1] c == Ev.a[2]
      fine == CASE Ev.how \in {"index", "cindex"} -> Ev.i \in 0..(r * c - 1)
                [] Ev.how \in {"rowcol", "crowcol"} -> Ev.i \in 0..(r - 1) /\ Ev.j \in 0..(c - 1)
                [] Ev.how \in {"getcol", "setcol"} -> Ev.j \in 0..(c - 1)
                [] Ev.how = "vector" -> Ev.i = r * c IN
  Ev.st = (IF fine THEN "ok" ELSE "abort")

(* ------------------------------------------------------------ solving, QR  *)
Small(s, n, lim) == Len(s) = n /\ \A k \in 1..n : s[k] \in -lim..lim
S == 10000
TSolve == Is("solve") /\ Keep /\
  Ev.n <= 4 /\
  LET n == Ev.n m == Ev.m det == Det(Ev.A, n) adjb == MulM(Adj(Ev.A, n), Ev.b, n, n, m) IN
  IF det = 0 THEN Ev.st = "singular"
  ELSE /\ Ev.st = "ok" /\ Small(Ev.x, n * m, 1000000000)
       \* x = adj(A) b / det(A)
       /\ \A k \in 1..(n * m) : Close(Ev.x[k], Quot(S * adjb[k], det), Tol + Tol * (Abs(Ev.x[k]) \div S))
       /\ (Ev.how = "const") => Ev.A2 = Ev.A /\ Ev.b2 = Ev.b
\* Larger systems: after a permutation of the rows strictly diagonally dominant, so there is exactly one solution.
RowSum(a, n, i) == Sum([j \in 1..n |-> Abs(At(a, n, i, j))])
Dominant(a, n) == \A j \in 1..n : \E i \in 1..n : 2 * Abs(At(a, n, i, j)) > RowSum(a, n, i)
TSolveBig == Is("solve") /\ Keep /\ Ev.n > 4 /\
  LET n == Ev.n m == Ev.m IN
  /\ Dominant(Ev.A, n)
  /\ Ev.st = "ok" /\ Small(Ev.x, n * m, 1000000)
  /\ LET ax == MulM(Ev.A, Ev.x, n, n, m) IN
     \A i \in 1..n, j \in 1..m : Close(At(ax, n, i, j), S * At(Ev.b, n, i, j), ((Tol * RowSum(Ev.A, n, i)) \div 4) + Tol)
  /\ (Ev.how = "const") => Ev.A2 = Ev.A /\ Ev.b2 = Ev.b
TDet == Is("det") /\ Keep /\
  LET n == Ev.n m == Ev.m g == IF n >= m THEN Gram(Ev.A, n, m) ELSE Gram(TransM(Ev.A, n, m), m, n) IN
  /\ Ev.det = Ev.det2
  /\ IF n = m THEN Close(Ev.det, 100 * Det(Ev.A, n), IF Tol > 4 THEN 20 ELSE 1)
     \* not square: the volume of the parallelepiped, up to sign
     ELSE n > m => /\ Abs(Ev.det) < 40000
                   /\ Close(Ev.det * Ev.det, 10000 * Det(g, m), 4 * Abs(Ev.det) + 4 + (IF Tol > 4 THEN 40 * Abs(Ev.det) ELSE 0))
Orthogonal(q, n) ==
  /\ Small(q, n * n, 11000)
  /\ LET p == MulM(TransM(q, n, n), q, n, n, n) IN
     \A i, j \in 1..n : Close(At(p, n, i, j), IF i = j THEN S * S ELSE 0, 10 * Tol * S)
Upper(r, n, m) == \A i \in 1..n, j \in 1..m : i > j => r[(j - 1) * n + i] = 0
Reproduces(q, r, a, n, k, m) ==      \* q: n by n, r: k by m (k rows of it)
  /\ Small(r, k * m, 120000)
  /\ LET p == UnfitM(q, r, n, n, k, m) IN \A e \in 1..(n * m) : Close(p[e], S * S * a[e], 20 * Tol * S)
AlongFirstAxis(a) == a[2] = 0 /\ a[3] = 0
TQr == Is("qr") /\ Keep /\
  LET n == Ev.n m == Ev.m IN
  /\ Orthogonal(Ev.Q, n)
  /\ Upper(Ev.R, m, m)
  /\ Reproduces(Ev.Q, Ev.R, Ev.A, n, m, m)
  /\ \A i \in 2..m : At(Ev.R, m, i, i) >= 0           \* only the first diagonal entry may be negative
  \* The frame of an edge in space is right handed.  (Not for edges along the first axis: see KNOWN_FINDINGS.txt.)
  /\ (n = 3 /\ m = 1 /\ ~AlongFirstAxis(Ev.A)) => Det([k \in 1..9 |-> Ev.Q[k] \div 100], 3) > 0
  /\ (Ev.how # "const") => Upper(Ev.full, n, m) /\ Reproduces(Ev.Q, Ev.full, Ev.A, n, n, m)
TRawQr == Is("rawqr") /\ Keep /\
  LET n == Ev.n m == Ev.m IN
  /\ Orthogonal(Ev.Q, n) /\ Ev.Q2 = Ev.Q /\ Ev.Q3 = Ev.Q
  /\ Upper(Ev.R, n, m) /\ Ev.R3 = Ev.R
  /\ Reproduces(Ev.Q, Ev.R, Ev.A, n, n, m)

TraceNext == TSet \/ TFill \/ TZero \/ TCopy \/ TMul \/ TUnfit \/ TTmm \/ TMmt \/ TAdd \/ TSub \/ TIAdd \/ TISub \/ THad
  \/ THdiv \/ TScal \/ TTransp \/ TDyad \/ TCross \/ TDiag \/ TDiagV \/ TRep \/ TGetCol \/ TSetCol \/ TCmp \/ TQuery
  \/ TDump \/ TRefuse \/ TSolve \/ TSolveBig \/ TDet \/ TQr \/ TRawQr
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
