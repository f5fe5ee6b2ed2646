SPECIFICATION Spec
INVARIANTS NoMeaning SameVerdict Emit
CHECK_DEADLOCK FALSE
