---------------------------- MODULE NetworkTrace ----------------------------
EXTENDS Network, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<net, r, pieces, coarse, l>>
Ev == Trace[l]
Is_(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1
TraceInit == net = <<>> /\ r = 1 /\ pieces = <<>> /\ coarse = <<>> /\ l = 1
S == 64
Pow2(a) == Sum([d \in 1..Len(a) |-> a[d] * a[d]])
Dist(a, b) == CHOOSE k \in 1..100 : k * k = Pow2([d \in 1..Len(a) |-> a[d] - b[d]])
At(P, X) == Sum([k \in 1..Len(P) |-> P[k][1] * Prod([d \in 1..Len(X) |-> IPow(X[d], P[k][d + 1])])])
Pts(c, s) == Ev.points[Ev.ends[c][s] + 1]
TNet == Is_("net") /\ r' = 1 /\ coarse' = <<>> /\ pieces' = Ev.pieces
        /\ net' = [p |-> Ev.p, tau |-> Ev.tau, kinv |-> Ev.kinv, f |-> Ev.f, ends |-> Ev.ends, types |-> Ev.types,
                   len |-> [c \in 1..Len(Ev.ends) |-> Dist(Pts(c, 1), Pts(c, 2))],
                   at |-> [c \in 1..Len(Ev.ends) |-> [s \in 1..2 |-> At(Ev.g, Pts(c, s))]], nodes |-> Len(Ev.points)]
        /\ (Ev.r = 1 /\ Ev.size = Len(Ev.points) /\ Ev.pieces = Ev.ends) = TRUE
TRefine == Is_("refine") /\ Divide(Ev.r, Ev.pieces) /\ (
  Chained(Ev.r, Ev.pieces) /\ Ev.size = net.nodes + Len(net.ends) * (Ev.r - 1)) = TRUE
Rows_(full) == LET T == 256 IN
  /\ Len(Ev.x) = Size /\ Len(Ev.out) = Size
  /\ \A n \in 0..(Size - 1) : Close(Q * Ev.out[n + 1], T * Row(Ev.x, n, full, 1), Q)
TApply == Is_("apply") /\ UNCHANGED nvars /\ (Rows_(FALSE)) = TRUE
TRes == Is_("res") /\ UNCHANGED nvars /\ (Rows_(TRUE)) = TRUE
TErr == Is_("err") /\ UNCHANGED nvars /\ (
  /\ net.p >= 2 \/ (net.p = 1 /\ net.f = 0)
  /\ LET d == 120 * IPow(r, 5) IN Close(d * Ev.out, S * Total(Ev.x), d)) = TRUE
TSolve == Is_("solve") /\ Found(IF net.p > 0 THEN SubSeq(Ev.x, 1, net.nodes) ELSE <<>>) /\ (
  /\ Anchored /\ Ev.ok = 1 /\ Len(Ev.x) = Size /\ Len(Ev.rest) = Size
  /\ \A n \in FixedNodes : Ev.x[n + 1] = 0
  /\ \A n \in 0..(Size - 1) : Abs(Ev.rest[n + 1]) <= 1 /\ (n \in FixedNodes \/ Close(Row(Ev.x, n, TRUE, S), 0, Stiffness(n) + Q))
  /\ (coarse # <<>> /\ net.p > 0) => CloseSeq(coarse, SubSeq(Ev.x, 1, net.nodes), 1)) = TRUE    \* the same on every division
TraceNext == TNet \/ TRefine \/ TApply \/ TRes \/ TErr \/ TSolve
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
