SPECIFICATION Spec
CONSTANT MaxVals = 3
INVARIANTS TypeOK NoUseOfDead
PROPERTY Ends
CHECK_DEADLOCK FALSE
