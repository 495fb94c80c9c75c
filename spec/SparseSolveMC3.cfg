SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxDiag = 3
  MaxRhs = 1
INVARIANTS EndsAtDegree TrueResidual Orthogonal Conjugate First
