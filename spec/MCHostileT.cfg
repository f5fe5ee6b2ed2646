SPECIFICATION Spec
CONSTANTS MaxDev = 3 Depth = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
