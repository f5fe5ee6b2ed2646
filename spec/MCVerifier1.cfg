SPECIFICATION Spec
CONSTANT Slots = {1}
INVARIANTS TypeOK VerdictIsAccept Sandwich Monotone NeverOutlasts Progress
CHECK_DEADLOCK FALSE
