SPECIFICATION Spec
CONSTANTS NOwn = 2 NGho = 2 NOth = 1 NMat = 2
INVARIANTS InverseLists InPlace
CHECK_DEADLOCK FALSE
