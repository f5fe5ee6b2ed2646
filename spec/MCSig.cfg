SPECIFICATION Spec
CONSTANT Slots = {1}
INVARIANTS OnlyIssuer AcceptNeedsSig Emit
CHECK_DEADLOCK FALSE
