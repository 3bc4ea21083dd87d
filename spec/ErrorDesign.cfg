SPECIFICATION Spec
INVARIANTS InForce EndsOnlySo
PROPERTIES OnlyThatMessage Grows
CHECK_DEADLOCK FALSE
