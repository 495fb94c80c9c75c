SPECIFICATION Spec
CONSTANTS MaxSide = 2
 MaxLam = 1
 MaxData = 1
INVARIANT Balance MassBalance Affine ConstantsAreTransported PureDiffusion
CHECK_DEADLOCK FALSE
