SPECIFICATION Spec
CONSTANTS MaxVal = 2
 Moves = 3
INVARIANT Equilibrium Reciprocity Dissipation RigidMotion Stretch
CHECK_DEADLOCK FALSE
