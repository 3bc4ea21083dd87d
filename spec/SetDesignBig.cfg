SPECIFICATION Spec
CONSTANTS NOwn = 3 NGho = 3 NOth = 1 NList = 4
INVARIANTS Shows Positions
CHECK_DEADLOCK FALSE
