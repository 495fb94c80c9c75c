SPECIFICATION Spec
CONSTANTS MaxSide = 2
 MaxLam = 1
INVARIANT ConservationW ConservationU Reciprocity Additive ConstantsCarryNothing
CHECK_DEADLOCK FALSE
