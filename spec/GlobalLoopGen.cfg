SPECIFICATION GSpec
CONSTANTS
  MaxCalls = 0
  XVals = {1}
  Times = {0}
  Kinds = {"elliptic", "parabolic", "nonlinear", "mass", "shifted"}
  GraphIds = {"star", "refine", "loop", "dofs"}
  Depth = 14
INVARIANT Emit
CHECK_DEADLOCK FALSE
