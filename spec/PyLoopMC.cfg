SPECIFICATION Spec
CONSTANT MaxCalls = 5
INVARIANTS NoOverwrite DirichletOnlyElliptic SizeOk
PROPERTIES Independent OptionsPersist
CHECK_DEADLOCK FALSE
