SPECIFICATION Spec
CONSTANTS Rule = "guarded" MaxLeaf = 1 MaxMid = 1 MaxRoot = 2
INVARIANTS Sound CompleteR PathLegit NoEmpty Emit
CHECK_DEADLOCK FALSE
