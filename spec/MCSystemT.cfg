SPECIFICATION Spec
CONSTANTS Slots = {1} Toks = 3 Cheats = FALSE Small = FALSE
INVARIANTS HonestAccepted NoAmplification Cheated Emit
CHECK_DEADLOCK FALSE
