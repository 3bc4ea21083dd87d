SPECIFICATION Spec
CONSTANTS NOwn = 3 NGho = 2 NOth = 1 NList = 3
INVARIANTS Shows Positions
CHECK_DEADLOCK FALSE
