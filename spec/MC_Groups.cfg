SPECIFICATION Spec
INVARIANTS Closed Orders Identified OnePerRotation Rotations ClosedRot OnePointGroup Names
CHECK_DEADLOCK FALSE
