SPECIFICATION Spec
CONSTANTS MaxSteps = 6
INVARIANT Agree Fresh OnlyIfNeeded LoadedMatches
CHECK_DEADLOCK FALSE
