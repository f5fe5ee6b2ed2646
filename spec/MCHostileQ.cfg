SPECIFICATION Spec
CONSTANTS MaxDev = 2 Depth = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
