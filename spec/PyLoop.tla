------------------------------- MODULE PyLoop -------------------------------
(* The classes of the Python interface: objects that wrap a global loop and    *)
(* its plot options.  Every object is a GlobalLoop of its own.                 *)
EXTENDS GlobalLoop
VARIABLE opts                       \* plot options of the object
PF == INSTANCE PlotFile WITH opts <- opts, files <- <<>>, dirs <- {}, mesh <- <<>>

\* An object can be made from a complete description of a hypergraph; a geometry without the argument of the local solver is refused.
Acceptable(how, whole) == whole /\ how # 3
NewObject(k, p, ls) == New(k, p, ls) /\ opts' = PF!Default
Delete == kind # "none" /\ kind' = "none" /\ UNCHANGED <<par, levels, lvl, dir, dirok, data, opts>>

\* The local solver gives up on this value: the call raises and the object is as before.
Poison == 777
Raises(x) == \E e \in 1..NE, n \in Faces, i \in Comps : Gather(x, e)[n][i] = Poison

Corners == IPow(2, par.f \div 2)
PlotValues(x, t) ==
  IF ~opts.plotEdges THEN <<>>
  ELSE [q \in 1..(NE * Corners) |-> LocErr(((q - 1) \div Corners) + 1, x, t)[1] + ((q - 1) % Corners)]
FaceValues == IF opts.plotEdgeBoundaries THEN NE * par.f * (Corners \div 2) ELSE 0
PlotOk(x, t, vals) ==
  /\ Len(vals) = Len(PlotValues(x, t)) + FaceValues
  /\ SubSeq(vals, 1, Len(PlotValues(x, t))) = PlotValues(x, t)
=============================================================================
