----------------------------- MODULE LocalEigsMC -----------------------------
(* The identities of LocalEigs for the lowest order method, in exact arithmetic. *)
EXTENDS LocalEigs
CONSTANTS MaxSide, MaxLam, MaxE
VARIABLES lam, mu, e1, e2, kinv
vars == <<cell, lam, mu, e1, e2, kinv>>
Line(h) == [p |-> 0, K |-> 1, N |-> 1, org |-> <<0>>, span |-> <<<<h>>>>, tau |-> 1]
Rect(h, k) == [p |-> 0, K |-> 2, N |-> 2, org |-> <<0, 0>>, span |-> <<<<h, 0>>, <<0, k>>>>, tau |-> 1]
Boxes == {Line(h) : h \in 1..MaxSide} \cup {Rect(h, k) : h \in 1..MaxSide, k \in 1..MaxSide}
Init == /\ \E b \in Boxes, s \in 1..2 : cell = [b EXCEPT !.tau = s]
        /\ lam = Zeros(2 * cell.K) /\ mu = lam /\ e1 = 0 /\ e2 = 0 /\ kinv \in 1..2
RaiseLam == \E k \in 1..Len(lam) : lam[k] < MaxLam /\ lam' = [lam EXCEPT ![k] = @ + 1] /\ UNCHANGED <<cell, mu, e1, e2, kinv>>
RaiseMu  == \E k \in 1..Len(mu) : mu[k] < 1 /\ mu' = [mu EXCEPT ![k] = @ + 1] /\ UNCHANGED <<cell, lam, e1, e2, kinv>>
Shift == /\ e1 < MaxE /\ e1' = e1 + 1 /\ UNCHANGED <<cell, lam, mu, e2, kinv>>
Shift2 == /\ e2 > -MaxE /\ e2' = e2 - 1 /\ UNCHANGED <<cell, lam, mu, e1, kinv>>
Next == RaiseLam \/ RaiseMu \/ Shift \/ Shift2
Spec == Init /\ [][Next]_vars
Faces == 0..(2 * cell.K - 1)
\* mu . F(x, e), over the denominator kinv * Prod(sides) * u[2]
H == Prod([k \in 1..cell.K |-> Side(cell, k)])
Pairing(x, y, e) == Sum([f \in 1..(2 * cell.K) |-> y[f] * (H \div Side(cell, (f + 1) \div 2)) * LowEigs(cell, kinv, x, f - 1, e)[1]])
DenOf(e) == kinv * H * LowU(cell, lam, e)[2]
Regular == \A e \in {e1, e2} : LowU(cell, lam, e)[2] > 0
Resolvent ==        \* 8 (F2 - F1) = (e2 - e1) V u2 u1
  LET a == LowU(cell, lam, e2) b == LowU(cell, mu, e1) IN
  8 * (Pairing(lam, mu, e2) * b[2] - Pairing(lam, mu, e1) * a[2]) = (e2 - e1) * Volume(cell) * a[1] * b[1] * kinv * H
Reciprocity == Pairing(lam, mu, e1) = Pairing(mu, lam, e1)
Outflow ==          \* the fluxes add up to e times the integral of u
  8 * Pairing(lam, [f \in 1..(2 * cell.K) |-> 1], e1) = e1 * Volume(cell) * LowU(cell, lam, e1)[1] * kinv * H
=============================================================================
