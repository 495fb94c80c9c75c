SPECIFICATION Spec
CONSTANTS MaxSteps = 5
INVARIANT Agree Fresh OnlyIfNeeded LoadedMatches
CHECK_DEADLOCK FALSE
