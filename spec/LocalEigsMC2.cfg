SPECIFICATION Spec
CONSTANTS MaxSide = 2
 MaxLam = 1
 MaxE = 3
INVARIANT Regular Resolvent Reciprocity Outflow
CHECK_DEADLOCK FALSE
