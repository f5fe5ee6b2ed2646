SPECIFICATION Spec
CONSTANT MaxSteps = 8
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE
