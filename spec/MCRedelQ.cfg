SPECIFICATION Spec
CONSTANTS
  MaxLex = 2
INVARIANTS Exactly Beyond Emit
CHECK_DEADLOCK FALSE
