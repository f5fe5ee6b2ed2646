SPECIFICATION Spec
CONSTANT Slots = {1, 2}
INVARIANTS TypeOK VerdictIsAccept Sandwich Monotone NeverOutlasts Progress
CHECK_DEADLOCK FALSE
