------------------------------- MODULE DofMap -------------------------------
(* Numbering of degrees of freedom and the exchange between a global vector   *)
(* and the d values that live at one hypernode.                               *)
EXTENDS VUtil, TLC
VARIABLES n, d, vec
dvars == <<n, d, vec>>

NGlobal == n * d
Index(node, i) == node * d + i                       \* all zero based
Indices(node) == [i \in 1..d |-> Index(node, i - 1)]
NodeOf(dof) == dof \div d
Slice(node) == [i \in 1..d |-> vec[Index(node, i - 1) + 1]]
Valid(node) == node \in 0..(n - 1) /\ Index(node, d - 1) < Len(vec)

New(nn, dd, v) == n' = nn /\ d' = dd /\ vec' = v
AddTo(node, loc) ==
  /\ Valid(node) /\ Len(loc) = d
  /\ vec' = [k \in 1..Len(vec) |-> IF NodeOf(k - 1) = node THEN vec[k] + loc[((k - 1) % d) + 1] ELSE vec[k]]
  /\ UNCHANGED <<n, d>>
SetTo(node, loc) ==
  /\ Valid(node) /\ Len(loc) = d
  /\ vec' = [k \in 1..Len(vec) |-> IF NodeOf(k - 1) = node THEN loc[((k - 1) % d) + 1] ELSE vec[k]]
  /\ UNCHANGED <<n, d>>
SetConst(node, c) ==
  /\ Valid(node)
  /\ vec' = [k \in 1..Len(vec) |-> IF NodeOf(k - 1) = node THEN c ELSE vec[k]]
  /\ UNCHANGED <<n, d>>
\* A call that would touch entries outside the vector is refused.
Refused(node) == ~ (Index(node, 0) >= 0 /\ Index(node, 0) + d <= Len(vec))

----------------------------------------------------------------------------
Bijective ==
  /\ \A a, b \in 0..(n - 1), i, j \in 0..(d - 1) : Index(a, i) = Index(b, j) => a = b /\ i = j
  /\ {Index(a, i) : a \in 0..(n - 1), i \in 0..(d - 1)} = 0..(NGlobal - 1)
  /\ \A k \in 0..(NGlobal - 1) : Index(NodeOf(k), k % d) = k
=============================================================================
