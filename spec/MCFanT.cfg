SPECIFICATION Spec
CONSTANT Rule = "guarded"
CONSTANT Tops = TRUE
INVARIANTS Sound CompleteR PathLegit Emit
CHECK_DEADLOCK FALSE
