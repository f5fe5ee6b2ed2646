SPECIFICATION Spec
CONSTANT Small = FALSE
INVARIANTS Refl Trans BadIso Forms1 Wild1 Antisym Narrow
CHECK_DEADLOCK FALSE
