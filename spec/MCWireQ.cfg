SPECIFICATION Spec
CONSTANT MaxDev = 2
INVARIANTS FieldwiseOnly GoodIsAccepted Emit
CHECK_DEADLOCK FALSE
