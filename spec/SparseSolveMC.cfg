SPECIFICATION Spec
CONSTANTS
  N = 2
  MaxDiag = 4
  MaxRhs = 3
INVARIANTS EndsAtDegree TrueResidual Orthogonal Conjugate First
