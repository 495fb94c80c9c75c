SPECIFICATION Spec
CONSTANTS MaxSide = 3
 MaxLam = 1
 MaxData = 2
INVARIANT Balance MassBalance Affine ConstantsAreTransported PureDiffusion
CHECK_DEADLOCK FALSE
