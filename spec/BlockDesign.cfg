SPECIFICATION Spec
CONSTANTS NX = 4 NY = 3 NZ = 2
INVARIANT Partition NotStuck
PROPERTY Reached
CHECK_DEADLOCK FALSE
