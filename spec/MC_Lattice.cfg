SPECIFICATION Spec
INVARIANTS IsAut Group Order HasCell Covers PrimBasis OneVolume
CHECK_DEADLOCK FALSE
