SPECIFICATION Spec
INVARIANTS SectionsFull RowsComplete AcceptedIsSound OnlyPropertiesSpoil
PROPERTY BadIsFinal
CONSTANTS
MaxLines = 16
KK = 1
NN = 1
CHECK_DEADLOCK FALSE
