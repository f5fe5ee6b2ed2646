SPECIFICATION Spec
CONSTANTS Slots = {1} Toks = 3 Cheats = TRUE Small = TRUE
INVARIANTS HonestAccepted NoAmplification Cheated Emit
CHECK_DEADLOCK FALSE
