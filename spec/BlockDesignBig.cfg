SPECIFICATION Spec
CONSTANTS NX = 5 NY = 4 NZ = 2
INVARIANT Partition NotStuck
PROPERTY Reached
CHECK_DEADLOCK FALSE
