SPECIFICATION Spec
CONSTANTS M = 2
 MaxVal = 2
 MaxSteps = 3
 MaxTau = 2
INVARIANT Agree OneEnd Balance Total Between Calm
CHECK_DEADLOCK FALSE
