SPECIFICATION Spec
CONSTANTS Threads = {t1, t2, t3} MaxOps = 6
INVARIANTS Sound Exact InSet
PROPERTY MemGrows
SYMMETRY Sym
CHECK_DEADLOCK FALSE
