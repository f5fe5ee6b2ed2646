SPECIFICATION Spec
CONSTANTS MaxCalls = 3 NoDid = {"F"} Mute = {"M"}
CONSTANT Pre <- PreQ
INVARIANTS Declared Commutes Emit
CHECK_DEADLOCK FALSE
