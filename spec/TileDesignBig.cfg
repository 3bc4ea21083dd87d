SPECIFICATION Spec
CONSTANTS NX = 3 NY = 2 NTile = 2 NHalo = 2
INVARIANTS OneMaster AllOfMine CellsOnce
CHECK_DEADLOCK FALSE
