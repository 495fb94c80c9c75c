---------------------------- MODULE DomainFileTrace ----------------------------
EXTENDS DomainFile, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1
TraceInit == l = 1
ReadOK == LET st == ReadAll(Ev.in.lines, Ev.k, Ev.nd) IN
          IF Ev.in.readable /\ Accepted(st) THEN Ev.st = "ok" /\ Ev.dom = Domain(st)
          ELSE Ev.st = "abort"
TRead == Is("read") /\ (ReadOK) = TRUE
(* The graph of a point set: the points as given, one hyperedge per pair of near points.     *)
PtsOK ==
  LET P == Ev.in.points  eps == Ev.in.eps  n == Len(P)
      fine == /\ Ev.in.readable /\ Ev.k = 1 /\ Ev.in.dim = Ev.nd /\ eps > 0 /\ n > 1
              /\ Ev.in.complete /\ Distinct(P) /\ Connected(P, eps)
  IN IF ~fine THEN Ev.st = "abort"
     ELSE LET D == Ev.dom IN
          /\ Ev.st = "ok"
          /\ D.nP = n /\ D.nN = n /\ Len(D.points) = n
          /\ {D.points[i] : i \in 1..n} = {P[i] : i \in 1..n}
          /\ D.nE = Len(D.nodes) /\ Len(D.corners) = D.nE
          /\ D.corners = D.nodes
          /\ \A e \in 1..D.nE : InRange(D.nodes[e], n)
          /\ LET got == [e \in 1..D.nE |-> {D.nodes[e][1] + 1, D.nodes[e][2] + 1}]
                 want == {{e[1], e[2]} : e \in Edges(D.points, eps)}
             IN {got[e] : e \in 1..D.nE} = want /\ D.nE = Cardinality(want)
TPts == Is("pts") /\ (PtsOK) = TRUE
TraceNext == TRead \/ TPts
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
