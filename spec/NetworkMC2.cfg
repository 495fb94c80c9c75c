SPECIFICATION Spec
CONSTANTS MaxNodes = 4
 MaxCurves = 3
 MaxLen = 2
 MaxVal = 1
INVARIANT DividedWell Affine Reciprocal Balance Dissipates SameOnDivision MaximumPrinciple
CHECK_DEADLOCK FALSE
