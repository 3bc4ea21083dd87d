SPECIFICATION Spec
CONSTANTS NX = 2 NY = 2 NTile = 3 NHalo = 1
INVARIANTS OneMaster AllOfMine CellsOnce
CHECK_DEADLOCK FALSE
