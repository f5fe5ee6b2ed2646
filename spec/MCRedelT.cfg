SPECIFICATION Spec
CONSTANTS
  MaxLex = 3
INVARIANTS Exactly Beyond Emit
CHECK_DEADLOCK FALSE
