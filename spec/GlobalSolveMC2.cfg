SPECIFICATION Spec
CONSTANTS MaxCells = 3
 MaxUnit = 6
 MaxLam = 3
 MaxDim = 3
INVARIANT Counted VolumesAddUp ErrorsAddUp Unique Exactness
CHECK_DEADLOCK FALSE
