SPECIFICATION Spec
CONSTANT Small = TRUE
INVARIANTS Refl Trans BadIso Forms1 Wild1 Antisym Narrow
CHECK_DEADLOCK FALSE
