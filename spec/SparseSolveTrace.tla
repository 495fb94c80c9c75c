-------------------------- MODULE SparseSolveTrace --------------------------
EXTENDS SparseSolve, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Tol == IF IOEnv.PREC = "float" THEN 100 ELSE 1        \* in units of 1/10000
S == 10000
VARIABLE l
vars == <<sparsevars, l>>
Ev == Trace[l]
Is(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1
NRegs == 4
TraceInit == regs = [k \in 1..NRegs |-> <<>>] /\ net = [n |-> 0, edges |-> <<>>, fixed |-> {}] /\ l = 1
Keep == UNCHANGED sparsevars
Set(d, v) == regs' = [regs EXCEPT ![d] = v] /\ UNCHANGED net
Shown == Ev.all = regs'                     \* every vector is observed after every call
TSet == Is("set") /\ Set(Ev.d, Ev.v) /\ Shown
TComb == Is("comb") /\
  (IF Fits(Ev.a, Ev.b) THEN Ev.st = "ok" /\ Set(Ev.d, Comb(Ev.p, regs[Ev.a], Ev.q, regs[Ev.b]))
   ELSE Ev.st = "abort" /\ Keep) /\ Shown
TInto == Is("into") /\
  (IF Fits(Ev.a, Ev.b) /\ Fits(Ev.a, Ev.d) THEN Ev.st = "ok" /\ Set(Ev.d, Comb(Ev.p, regs[Ev.a], Ev.q, regs[Ev.b]))
   ELSE Ev.st = "abort" /\ Keep) /\ Shown
TDot == Is("dot") /\ Keep /\ Shown /\
  IF Fits(Ev.a, Ev.b) THEN Ev.st = "ok" /\ Ev.res = Dot(regs[Ev.a], regs[Ev.b]) ELSE Ev.st = "abort"
\* the norm is given in units of 1/1000
TNorm == Is("norm") /\ Keep /\ Shown /\
  LET q == Dot(regs[Ev.a], regs[Ev.a]) IN
  Ev.res >= 0 /\ Ev.res < 40000 /\ Close(Ev.res * Ev.res, 1000000 * q, 2 * Ev.res + 2 + (IF Tol > 1 THEN Ev.res ELSE 0))

(* ----------------------------------------------------------------- solves  *)
Small(s, n) == Len(s) = n /\ \A k \in 1..n : s[k] \in -20000000..20000000
RowSum(row) == Sum([k \in 1..Len(row) |-> Abs(row[k])])
\* b is given in units of 1/u, x in units of 1/(u S)
Solves(A, X, b, u) == \A i \in 1..Len(A) : Close(Dot(A[i], X), S * b[i], (IF u > 1000 THEN 20 ELSE Tol) * (RowSum(A[i]) + 1))
\* |b - A x| < tol/10 up to rounding; in units of 1/(100 u)
Nearly(A, X, b, u, tol) ==
  LET AX == Apply(A, X) res == [i \in 1..Len(b) |-> (S * b[i] - AX[i]) \div 100] IN
  (\A i \in 1..Len(b) : Abs(res[i]) < 15000) /\ Dot(res, res) <= (10 * tol * u + 10) * (10 * tol * u + 10)
TCg == Is("cg") /\ Keep /\
  LET n == Len(Ev.b) m == Degree(Ev.A, Ev.b) allow == Allowed(n, Ev.its)
      must == IF Ev.tol > 0 THEN (IF ZerothSmall(Ev.b, Ev.u, Ev.tol) THEN 0
                                  ELSE IF FirstSmall(Ev.A, Ev.b, Ev.u, Ev.tol) THEN 1 ELSE m) ELSE m
      may == IF Ev.tol > 0 THEN Min2(2, must) ELSE m IN
  /\ Ev.same                               \* the right hand side is not modified
  /\ Ev.products <= allow
  /\ (Ev.st = "ok") \/ (Ev.st = "noconv" /\ allow < must)
  /\ (Ev.st = "ok") => /\ allow >= may /\ Small(Ev.x, n)
                       /\ IF Ev.tol > 0 THEN Nearly(Ev.A, Ev.x, Ev.b, Ev.u, Ev.tol) ELSE Solves(Ev.A, Ev.x, Ev.b, Ev.u)
                       /\ (m = 0) => Ev.x = Zeros(n) /\ Ev.products = 0

(* --------------------------------------------------------------- networks  *)
TNet == Is("net") /\ net' = [n |-> Ev.n, edges |-> Ev.edges, fixed |-> {}] /\ UNCHANGED regs
TFix == Is("fix") /\ net' = [net EXCEPT !.fixed = {Ev.idx[k] : k \in 1..Len(Ev.idx)}] /\ UNCHANGED regs
TNetSolve == Is("netsolve") /\ Keep /\
  /\ Ev.st = "ok" /\ Small(Ev.x, net.n)
  /\ \A i \in 0..(net.n - 1) :
       IF i \in net.fixed THEN Ev.x[i + 1] = 0
       ELSE Close(Balance(Ev.x, i), S * Supply(i), Tol * (1 + 2 * Sum([e \in 1..Len(net.edges) |-> net.edges[e][3]])))
TraceNext == TSet \/ TComb \/ TInto \/ TDot \/ TNorm \/ TCg \/ TNet \/ TFix \/ TNetSolve
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
