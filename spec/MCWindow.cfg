SPECIFICATION Spec
CONSTANT Slots = {1}
INVARIANTS EnclosesReflexive EnclosesMeaning EnclosesAntisym AcceptedInside Emit
CHECK_DEADLOCK FALSE
