SPECIFICATION Spec
CONSTANTS
  MaxCalls = 2
  XVals <- XSmall
  Times = {0, 3}
  Kinds = {"elliptic", "parabolic", "nonlinear"}
  GraphIds = {"star", "refine", "loop", "dofs"}
INVARIANTS ResultIsCoarse DataIsLocal DataOnlyByTimeSteps DirichletRows MatrixActs Linear SizeOk
CHECK_DEADLOCK FALSE
