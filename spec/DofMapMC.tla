------------------------------ MODULE DofMapMC ------------------------------
EXTENDS DofMap
CONSTANTS MaxN, MaxD
VARIABLE touched
vars == <<dvars, touched>>
Vals == {-1, 0, 1}
Loc == [1..d -> Vals]
Init == /\ n \in 1..MaxN /\ d \in 1..MaxD /\ vec = Zeros(n * d) /\ touched = {}
DoAdd == \E node \in 0..(n - 1), x \in Loc : AddTo(node, x) /\ touched' = touched \cup {node}
DoSet == \E node \in 0..(n - 1), x \in Loc : SetTo(node, x) /\ touched' = touched \cup {node}
DoConst == \E node \in 0..(n - 1), c \in Vals : SetConst(node, c) /\ touched' = touched \cup {node}
Next == DoAdd \/ DoSet \/ DoConst
Spec == Init /\ [][Next]_vars
Bound == \A k \in 1..Len(vec) : Abs(vec[k]) <= 1
SizeKept == Len(vec) = NGlobal
\* Nothing outside the hypernodes addressed ever changes.
Frame == \A k \in 1..Len(vec) : NodeOf(k - 1) \notin touched => vec[k] = 0
Partition == FoldLeft(LAMBDA a, b : a \o b, <<>>, [m \in 1..n |-> Slice(m - 1)]) = vec
=============================================================================
