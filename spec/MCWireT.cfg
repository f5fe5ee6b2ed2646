SPECIFICATION Spec
CONSTANT MaxDev = 3
INVARIANTS FieldwiseOnly GoodIsAccepted Emit
CHECK_DEADLOCK FALSE
