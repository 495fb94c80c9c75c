SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxD = 3
CONSTRAINT Bound
INVARIANTS Bijective SizeKept Frame Partition
CHECK_DEADLOCK FALSE
