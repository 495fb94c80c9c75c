SPECIFICATION Spec
INVARIANTS NumberedOnce Refined BoundaryMarked TypeOfFace
CONSTANTS
Cases <- AllCases
MaxN = 2
MaxR = 3
MaxSteps = 2
CHECK_DEADLOCK FALSE
