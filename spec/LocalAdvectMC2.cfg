SPECIFICATION Spec
CONSTANTS M = 3
 MaxVal = 2
 MaxSteps = 2
 MaxTau = 3
INVARIANT Agree OneEnd Balance Total Between Calm
CHECK_DEADLOCK FALSE
