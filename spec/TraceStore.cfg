SPECIFICATION Spec
CONSTANT Threads <- TThreads
CHECK_DEADLOCK FALSE
