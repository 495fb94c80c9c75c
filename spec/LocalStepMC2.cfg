SPECIFICATION Spec
CONSTANTS MaxSide = 2
 MaxLam = 2
 MaxSteps = 2
INVARIANT Balance Between Rest
CHECK_DEADLOCK FALSE
