SPECIFICATION Spec
CONSTANTS MaxList = 3 Two = FALSE
INVARIANTS RegroupSame EntriesAreNamed Emit
CHECK_DEADLOCK FALSE
