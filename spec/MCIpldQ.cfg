SPECIFICATION Spec
CONSTANT MaxSteps = 5
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE
