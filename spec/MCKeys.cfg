SPECIFICATION Spec
CONSTANTS Ids = {"ed1", "ed2", "rsa1", "rsa2", "p2561", "p2562"} Msgs = {"m1", "m2"}
INVARIANTS Unique Emit
CHECK_DEADLOCK FALSE
