---------------------------- MODULE LocalAdvectMC ----------------------------
(* A chain of unit intervals, lowest order, exact arithmetic: the wind is      *)
(* constant in space and may turn between the steps; both ends follow the wind *)
(* (prescribed values where it enters).  Solving interval by interval, against *)
(* the balance of LocalAdvect and what neighbours see of each other.           *)
EXTENDS LocalAdvect
CONSTANTS M, MaxVal, MaxSteps, MaxTau
VARIABLES u,        \* numerators of the mean values
          den,      \* their common denominator
          v,        \* wind: -1, 0, 1
          inflow,   \* prescribed value
          k,        \* steps
          last      \* [u, den, v] before the last step
avars == <<cell, old, smooth, mass, tr, u, den, v, inflow, k, last>>
Interval(i, w, g) == [cell EXCEPT !.org = <<i - 1>>, !.vel = <<<<<<w, 0, 0>>>>>>, !.u = <<<<g, 0, 0>>>>,
                        !.types = <<IF i = 1 THEN 3 ELSE 0, IF i = M THEN 3 ELSE 0>>]
\* traces of one level, in units of 1 / d: upwind values, zero where values are prescribed
Face(U, w, j) == IF w > 0 THEN (IF j = 0 THEN 0 ELSE U[j]) ELSE (IF j = M THEN 0 ELSE U[j + 1])
End(U, w, j) == IF (w <= 0 /\ j = M) \/ (w >= 0 /\ j = 0) THEN 0 ELSE Face(U, w, j)
Traces(U, w, i) == <<End(U, w, i - 1), End(U, w, i)>>
Loss(U, d, w, g, i) == Lost(Interval(i, w, g), 0, U[i], Traces(U, w, i), d)
Norm(U, d) == LET h == FoldLeft(LAMBDA a, b : Gcd(Max2(Abs(a), Abs(b)), Min2(Abs(a), Abs(b))), d, U) IN
              [U |-> [i \in 1..M |-> U[i] \div h], d |-> d \div h]
(* solve from the inlet to the outlet; everything over den q^M *)
Q(w) == 16 + cell.theta * cell.dt * 4 * Abs(w)
RECURSIVE March(_, _, _)
March(w, n, acc) ==      \* acc: new values (upstream first) of the first n intervals, over den q^n
  IF n = M THEN acc ELSE
  LET i == IF w > 0 THEN n + 1 ELSE M - n
      up == IF n = 0 THEN inflow * den ELSE acc[n]
      own == IPow(Q(w), n) * (16 * u[i] - (4 - cell.theta) * cell.dt * Loss(u, den, v, inflow, i)) IN
  March(w, n + 1, Append(Scale(Q(w), acc), own + cell.theta * cell.dt * 4 * Abs(w) * up))
NewValues(w) == LET a == March(w, 0, <<>>) IN Norm([i \in 1..M |-> IF w > 0 THEN a[i] ELSE a[M + 1 - i]], den * IPow(Q(w), M))
Init == /\ \E tau \in 1..MaxTau, th \in 1..4 :
             cell = [p |-> 0, K |-> 1, N |-> 1, org |-> <<0>>, span |-> <<<<1>>>>, types |-> <<0, 0>>, tau |-> tau, fine |-> <<1>>,
                     theta |-> th, dt |-> 1, f |-> <<>>, u |-> <<>>, vel |-> <<>>]
        /\ old = 0 /\ smooth = FALSE /\ mass = 0 /\ tr = <<>> /\ k = 0 /\ last = <<>>
        /\ u \in [1..M -> 0..MaxVal] /\ den = 1 /\ v \in {-1, 0, 1} /\ inflow \in 0..MaxVal
Step == /\ k < MaxSteps /\ k' = k + 1
        /\ v' \in {-1, 0, 1}
        /\ LET n == NewValues(v') IN u' = n.U /\ den' = n.d
        /\ last' = [u |-> u, den |-> den, v |-> v]
        /\ UNCHANGED <<cell, old, smooth, mass, tr, inflow>>
Spec == Init /\ [][Step]_avars
Agree ==            \* neighbours see the same, and nothing of the outlet
  /\ \A i \in 1..(M - 1) :
       Seen(Interval(i, v, inflow), 1, 0, u[i], 1, Traces(u, v, i)[2]) + Seen(Interval(i + 1, v, inflow), 0, 0, u[i + 1], 1, Traces(u, v, i + 1)[1]) = 0
  /\ Seen(Interval(1, v, inflow), 0, 0, u[1], 1, Traces(u, v, 1)[1]) = 0 \/ Shut(Interval(1, v, inflow), 0, 0)
  /\ Seen(Interval(M, v, inflow), 1, 0, u[M], 1, Traces(u, v, M)[2]) = 0 \/ Shut(Interval(M, v, inflow), 1, 0)
OneEnd ==           \* exactly one end carries prescribed values if there is wind
  v # 0 => (Shut(Interval(1, v, inflow), 0, 0) # Shut(Interval(M, v, inflow), 1, 0))
Balance ==          \* every interval loses what it sends
  last # <<>> => \A i \in 1..M :
    16 * (u[i] * last.den - last.u[i] * den) =
    -(cell.dt * (cell.theta * Loss(u, den, v, inflow, i) * last.den + (4 - cell.theta) * Loss(last.u, last.den, last.v, inflow, i) * den))
Total ==            \* the chain loses only at its ends
  Sum([i \in 1..M |-> Loss(u, den, v, inflow, i)]) = IF v > 0 THEN 4 * (u[M] - inflow * den) ELSE IF v < 0 THEN 4 * (u[1] - inflow * den) ELSE 0
Between ==          \* implicit steps stay between the data
  cell.theta = 4 => \A i \in 1..M : 0 <= u[i] /\ u[i] <= MaxVal * den
Calm == (last # <<>> /\ v = 0 /\ (cell.theta = 4 \/ last.v = 0)) => \A i \in 1..M : u[i] * last.den = last.u[i] * den
=============================================================================
