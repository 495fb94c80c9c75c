SPECIFICATION Spec
CONSTANTS MaxSide = 3
 MaxLam = 3
 MaxData = 2
INVARIANT Conservation Affine Reciprocity ConstantsCarryNothing Dissipation LinearSolution
CHECK_DEADLOCK FALSE
