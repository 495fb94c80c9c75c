SPECIFICATION Spec
CONSTANTS MaxSide = 2
 MaxLam = 2
 MaxData = 1
INVARIANT Conservation Affine Reciprocity ConstantsCarryNothing Dissipation LinearSolution
CHECK_DEADLOCK FALSE
