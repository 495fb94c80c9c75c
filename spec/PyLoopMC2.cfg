SPECIFICATION Spec
CONSTANT MaxCalls = 7
INVARIANTS NoOverwrite DirichletOnlyElliptic SizeOk
PROPERTIES Independent OptionsPersist
CHECK_DEADLOCK FALSE
