SPECIFICATION Spec
CONSTANTS MaxVal = 2
 Moves = 5
INVARIANT Equilibrium Reciprocity Dissipation RigidMotion Stretch
CHECK_DEADLOCK FALSE
