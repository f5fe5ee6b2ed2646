SPECIFICATION Spec
CONSTANT Threads = {1}
CHECK_DEADLOCK FALSE
