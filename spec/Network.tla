------------------------------ MODULE Network ------------------------------
(* Diffusion on a network of curves: - (u' / kinv)' = f on every curve, u is   *)
(* continuous, and at every hypernode where no value is prescribed the fluxes  *)
(* of all curves that meet there add up to zero.  A curve is divided into r    *)
(* pieces.  The unknowns are the values at the hypernodes.                     *)
EXTENDS VUtil
VARIABLES net,      \* [p, tau, kinv, f, len, ends, types, at, nodes]: data of the curves, prescribed values at the points
          r,        \* pieces per curve
          pieces,   \* <<first, second hypernode>> of each piece (numbers start with 0)
          coarse    \* values at the coarse hypernodes that a solve has found, <<>> before
nvars == <<net, r, pieces, coarse>>
Fixed(type) == type \in {1, 4}
Curves == 1..Len(net.ends)
CurveOf(i) == (i - 1) \div r + 1
\* type of an end of a piece: inner points of a curve have none
Type(i, s) == LET j == ((i - 1) % r) + 1 IN
              IF (s = 1 /\ j = 1) \/ (s = 2 /\ j = r) THEN net.types[CurveOf(i)][s] ELSE 0
\* the pieces of each curve form a chain between its ends, with inner hypernodes of their own
Chained(k, pc) ==
  /\ Len(pc) = k * Len(net.ends)
  /\ \A c \in Curves : /\ pc[(c - 1) * k + 1][1] = net.ends[c][1] /\ pc[c * k][2] = net.ends[c][2]
                       /\ \A j \in 1..(k - 1) : LET i == (c - 1) * k + j IN pc[i][2] = pc[i + 1][1] /\ pc[i][2] >= net.nodes
  /\ Cardinality({pc[i][2] : i \in 1..Len(pc)} \cup {pc[i][1] : i \in 1..Len(pc)} \cup 0..(net.nodes - 1))
       = net.nodes + Len(net.ends) * (k - 1)
Size == net.nodes + Len(net.ends) * (r - 1)

(* ---------------------------------------------------- one piece of a curve  *)
Len_(i) == net.len[CurveOf(i)]
\* conductivity <<numerator, denominator>>; the stabilisation adds to that of constant functions
Weight(i) == LET h == Len_(i) IN
             IF net.p > 0 THEN <<r, net.kinv * h>> ELSE <<2 * r + net.tau * net.kinv * h, 2 * net.kinv * h>>
\* all denominators divide Q
RECURSIVE Lcm(_, _)
Lcm(s, k) == IF k = 0 THEN 1 ELSE LET a == Lcm(s, k - 1) IN (a \div Gcd(a, s[k])) * s[k]
Q == 2 * r * net.kinv * Lcm(net.len, Len(net.len))
QWeight(i) == LET w == Weight(i) IN w[1] * (Q \div w[2])
QSource(i) == net.f * Len_(i) * (Q \div (2 * r))                  \* half of what is produced in the piece
\* what the solver takes as the value at an end; full: with the prescribed values (values in units of 1 / S)
Value(x, i, s, full, S) == x[pieces[i][s] + 1] + (IF full /\ Fixed(Type(i, s)) THEN S * net.at[CurveOf(i)][s] ELSE 0)
\* Q times what flows out of piece i at end s
Outflow(x, i, s, full, S) ==
  IF Fixed(Type(i, s)) THEN 0
  ELSE QWeight(i) * (Value(x, i, 3 - s, full, S) - Value(x, i, s, full, S)) + (IF full THEN S * QSource(i) ELSE 0)
Meet(n) == SelectSeq([k \in 1..(2 * Len(pieces)) |-> <<(k + 1) \div 2, IF k % 2 = 1 THEN 1 ELSE 2>>], LAMBDA q : pieces[q[1]][q[2]] = n)
Row(x, n, full, S) == LET q == Meet(n) IN Sum([k \in 1..Len(q) |-> Outflow(x, q[k][1], q[k][2], full, S)])
Stiffness(n) == LET q == Meet(n) IN Sum([k \in 1..Len(q) |-> QWeight(q[k][1])])
\* integral of u^2 over piece i times 120 r^5 (values at the ends are integers; degree 2, or degree 1 without source)
Energy(x, i) ==
  LET a == Value(x, i, 1, TRUE, 1) b == Value(x, i, 2, TRUE, 1) h == Len_(i) c == net.f * net.kinv IN
  40 * h * IPow(r, 4) * (a * a + a * b + b * b) + 10 * c * (a + b) * h * h * h * r * r + c * c * IPow(h, 5)
Total(x) == Sum([i \in 1..Len(pieces) |-> Energy(x, i)])

(* -------------------------------------------------------------- networks    *)
\* every end at hypernode n says the same
Agree == \A c, d \in Curves : \A s, t \in 1..2 : net.ends[c][s] = net.ends[d][t] => (Fixed(net.types[c][s]) <=> Fixed(net.types[d][t]))
FixedNodes == UNION {{net.ends[c][s] : s \in {k \in 1..2 : Fixed(net.types[c][k])}} : c \in Curves}
RECURSIVE Reach(_)
Reach(A) == LET B == A \cup {net.ends[c][2] : c \in {c \in Curves : net.ends[c][1] \in A}}
                      \cup {net.ends[c][1] : c \in {c \in Curves : net.ends[c][2] \in A}} IN
            IF B = A THEN A ELSE Reach(B)
Anchored == Agree /\ Reach(FixedNodes) = 0..(net.nodes - 1)

(* -------------------------------------------------------------- actions     *)
Divide(k, pc) == k > 0 /\ r' = k /\ pieces' = pc /\ UNCHANGED <<net, coarse>>
Found(y) == coarse' = y /\ UNCHANGED <<net, r, pieces>>
=============================================================================
