SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS Injective ReadsBack SigReadsBack SigCut
CHECK_DEADLOCK FALSE
