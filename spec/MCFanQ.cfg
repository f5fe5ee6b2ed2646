SPECIFICATION Spec
CONSTANT Rule = "guarded"
CONSTANT Tops = FALSE
INVARIANTS Sound CompleteR PathLegit Emit
CHECK_DEADLOCK FALSE
