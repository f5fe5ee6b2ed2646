SPECIFICATION Spec
CONSTANTS Rule = "guarded" MaxLeaf = 2 MaxMid = 1 MaxRoot = 2
INVARIANTS Sound CompleteR PathLegit NoEmpty
CHECK_DEADLOCK FALSE
