SPECIFICATION Spec
CONSTANTS Slots = {1} Toks = 2 Cheats = TRUE Small = FALSE
INVARIANTS HonestAccepted NoAmplification Cheated Emit
CHECK_DEADLOCK FALSE
