SPECIFICATION Spec
CONSTANTS MaxList = 4 Two = TRUE
INVARIANTS RegroupSame EntriesAreNamed Emit
CHECK_DEADLOCK FALSE
