SPECIFICATION Spec
INVARIANTS Group Preserve Holohedry Bare OnePerRotation Counting
CHECK_DEADLOCK FALSE
