----------------------------- MODULE NetworkMC -----------------------------
(* Small networks (all graphs on few hypernodes, several curves between two    *)
(* ends allowed), all integer values: the laws of the system.                  *)
EXTENDS Network
CONSTANTS MaxNodes, MaxCurves, MaxLen, MaxVal
VARIABLE x            \* values at the hypernodes
mvars == <<net, r, pieces, coarse, x>>
Chain(a, b, k, first) == [j \in 1..k |-> <<IF j = 1 THEN a ELSE first + j - 2, IF j = k THEN b ELSE first + j - 1>>]
Cut(nt, k) == FlattenSeq([c \in 1..Len(nt.ends) |-> Chain(nt.ends[c][1], nt.ends[c][2], k, nt.nodes + (c - 1) * (k - 1))])
Init == \E m \in 2..MaxNodes, n \in 1..MaxCurves : \E e \in [1..n -> {q \in (0..(m - 1)) \X (0..(m - 1)) : q[1] < q[2]}] :
        \E len \in [1..n -> 1..MaxLen], pin \in {{0}, {0, m - 1}, {}}, p \in 0..1, f \in 0..1 :
          /\ net = [p |-> p, tau |-> 1, kinv |-> 1, f |-> f, len |-> len, ends |-> e, nodes |-> m,
                    types |-> [c \in 1..n |-> [s \in 1..2 |-> IF e[c][s] \in pin THEN 1 ELSE 0]],
                    at |-> [c \in 1..n |-> [s \in 1..2 |-> e[c][s]]]]
          /\ r = 1 /\ pieces = e /\ coarse = <<>> /\ x = Zeros(m)
Raise(i) == /\ x[i] < MaxVal /\ x' = [x EXCEPT ![i] = @ + 1] /\ UNCHANGED nvars
Finer == /\ r = 1 /\ Divide(2, Cut(net, 2)) /\ x' = x \o Zeros(Len(net.ends))
Next == Finer \/ \E i \in 1..net.nodes : Raise(i)
Spec == Init /\ [][Next]_mvars
Hyper == 0..(Size - 1)
Free == Hyper \ FixedNodes
Unit_(n) == [Zeros(Size) EXCEPT ![n + 1] = 1]
RowOf(y, n) == Row(y, n, FALSE, 1)
DividedWell == Chained(r, pieces)
Affine == \A n \in Hyper : Row(x, n, TRUE, 1) = RowOf(x, n) + Row(Zeros(Size), n, TRUE, 1)
Reciprocal == x = Zeros(Size) => \A m, n \in Free : RowOf(Unit_(m), n) = RowOf(Unit_(n), m)
\* without prescribed values: what is produced leaves, constants carry nothing
Balance == FixedNodes = {} =>
  /\ Sum([n \in 1..Size |-> RowOf(x, n - 1)]) = 0
  /\ Sum([n \in 1..Size |-> Row(x, n - 1, TRUE, 1)]) = Q * net.f * Sum(net.len)
  /\ \A n \in Hyper : RowOf([k \in 1..Size |-> 1], n) = 0
Dissipates == (\A n \in FixedNodes : x[n + 1] = 0) =>
  LET e == Sum([n \in 1..Size |-> x[n] * RowOf(x, n - 1)]) IN e <= 0 /\ (Anchored /\ e = 0 => x = Zeros(Size))
\* on a division of the curves, with the inner values of the exact solution, the coarse hypernodes see the same
\* (values twice as large as x, so that the middle is an integer; degree at least one)
Middle(c) == x[net.ends[c][1] + 1] + x[net.ends[c][2] + 1]
SameOnDivision == (r = 1 /\ net.p > 0 /\ net.f = 0 /\ FixedNodes = {}) =>
  \A n \in 0..(net.nodes - 1) :
    LET touch == SelectSeq([c \in 1..Len(net.ends) |-> c], LAMBDA c : n \in {net.ends[c][1], net.ends[c][2]})
        W(c) == 2 * (Q \div net.len[c])                          \* conductivity of half of the curve
        half == Sum([k \in 1..Len(touch) |-> W(touch[k]) * (Middle(touch[k]) - 2 * x[n + 1])]) IN
    half = 2 * RowOf(x, n)
\* the mean value property: no source, balanced at all free hypernodes -> between the extreme values
MaximumPrinciple == (net.f = 0 /\ Anchored /\ r = 1 /\ \A n \in Free : RowOf(x, n) = 0) =>
  \A n \in Free : \E m \in FixedNodes : x[n + 1] <= x[m + 1]
=============================================================================
