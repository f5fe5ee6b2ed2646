SPECIFICATION Spec
CONSTANT Slots = {1}
INVARIANTS OneFault Emit
CHECK_DEADLOCK FALSE
