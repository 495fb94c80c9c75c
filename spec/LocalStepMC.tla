----------------------------- MODULE LocalStepMC -----------------------------
(* The lowest order time step on boxes, in exact arithmetic, over all short    *)
(* histories of traces; and the divergence theorem behind the balance of       *)
(* polynomial solutions.                                                       *)
EXTENDS LocalStep
CONSTANTS MaxSide, MaxLam, MaxSteps
VARIABLES u,        \* remembered mean value <<numerator, denominator>>
          src,      \* constant source
          last      \* u, trace and state before the last step
mvars == <<cell, old, smooth, mass, tr, u, src, last>>
Line(h) == [p |-> 0, K |-> 1, N |-> 1, org |-> <<0>>, span |-> <<<<h>>>>, tau |-> 1, theta |-> 4, dt |-> 1]
Rect(h, k) == [p |-> 0, K |-> 2, N |-> 2, org |-> <<0, 0>>, span |-> <<<<h, 0>>, <<0, k>>>>, tau |-> 1, theta |-> 4, dt |-> 1]
Boxes == {Line(h) : h \in 1..MaxSide} \cup {Rect(h, k) : h \in 1..MaxSide, k \in 1..MaxSide}
Traces(c) == IF c.K = 1 THEN [1..2 -> 0..MaxLam] ELSE {<<a, b, b, a>> : a \in 0..MaxLam, b \in 0..MaxLam}
\* total outflow of one level times the denominator of w
Out(c, w, x) == c.tau * (Perimeter(c) * w[1] - w[2] * Sum([f \in 1..(2 * c.K) |-> Area(c, (f + 1) \div 2) * x[f]]))
NewU(c, w, x0, x1, f) ==
  LET V == Volume(c) L(x) == Sum([k \in 1..(2 * c.K) |-> Area(c, (k + 1) \div 2) * x[k]]) IN
  <<4 * V * w[1] + c.dt * (c.theta * w[2] * (c.tau * L(x1) + f * V) + (4 - c.theta) * (w[2] * f * V - Out(c, w, x0))),
    w[2] * (4 * V + c.theta * c.dt * c.tau * Perimeter(c))>>
Init == /\ \E b \in Boxes, s \in 1..2, th \in 1..4, d \in 1..2 : cell = [b EXCEPT !.tau = s, !.theta = th, !.dt = d]
        /\ old = 0 /\ smooth = FALSE /\ mass = 0 /\ src \in 0..1
        /\ u \in {<<k, 1>> : k \in 0..MaxLam} /\ tr \in Traces(cell) /\ last = <<>>
Step == /\ old < MaxSteps * cell.dt
        /\ tr' \in Traces(cell)
        /\ u' = NewU(cell, u, tr, tr', src) /\ old' = old + cell.dt /\ last' = <<u, tr>>
        /\ UNCHANGED <<cell, smooth, mass, src>>
Spec == Init /\ [][Step]_mvars
Balance ==          \* V (u' - u) = dt (f V - theta Out' - (1 - theta) Out)
  last # <<>> => LET w == last[1] V == Volume(cell) IN
    4 * V * (u[1] * w[2] - w[1] * u[2]) =
    cell.dt * (4 * src * V * u[2] * w[2] - cell.theta * Out(cell, u, tr) * w[2] - (4 - cell.theta) * Out(cell, w, last[2]) * u[2])
Between ==          \* implicit steps without source stay between the data
  (last # <<>> /\ cell.theta = 4 /\ src = 0) => LET w == last[1] IN
    /\ \A b \in 0..MaxLam : ((\A f \in 1..Len(tr) : tr[f] <= b) /\ w[1] <= b * w[2]) => u[1] <= b * u[2]
    /\ \A b \in 0..MaxLam : ((\A f \in 1..Len(tr) : tr[f] >= b) /\ w[1] >= b * w[2]) => u[1] >= b * u[2]
Rest ==             \* constant states stay
  (last # <<>> /\ src = 0 /\ tr = last[2] /\ \A f \in 1..Len(tr) : tr[f] * last[1][2] = last[1][1]) => u[1] * last[1][2] = last[1][1] * u[2]
=============================================================================
