SPECIFICATION Spec
CONSTANT Slots = {1, 2, 3}
CHECK_DEADLOCK FALSE
