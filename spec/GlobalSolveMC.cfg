SPECIFICATION Spec
CONSTANTS MaxCells = 2
 MaxUnit = 6
 MaxLam = 2
 MaxDim = 2
INVARIANT Counted VolumesAddUp ErrorsAddUp Unique Exactness
CHECK_DEADLOCK FALSE
