SPECIFICATION Spec
CONSTANTS
  Dims = {1, 2, 3}
  Slots = {1, 2, 3}
  Vals <- NegVals
INVARIANTS TransposedProduct UnfitIsMul Multiplicative Trichotomy CrossLaws Cramer NormLaws Frame
CHECK_DEADLOCK FALSE
