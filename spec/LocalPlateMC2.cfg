SPECIFICATION Spec
CONSTANTS MaxSide = 3
 MaxLam = 2
INVARIANT ConservationW ConservationU Reciprocity Additive ConstantsCarryNothing
CHECK_DEADLOCK FALSE
