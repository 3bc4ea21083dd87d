SPECIFICATION Spec
INVARIANTS MeshesWellFormed MeshesValid OppositesInvolutive SidesPairUp CornersCovered NormalsClose CellsSeparated HalosGrow OwnershipConsistent
CHECK_DEADLOCK FALSE
