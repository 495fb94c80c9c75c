SPECIFICATION Spec
CONSTANTS
  MaxPlots = 2
  MaxDim = 3
INVARIANTS NothingLost LastFileIsLast Consistent Unscaled
CHECK_DEADLOCK FALSE
