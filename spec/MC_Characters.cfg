SPECIFICATION Spec
INVARIANTS InTable SameSystem Unique HasCentering
CHECK_DEADLOCK FALSE
PROPERTY HasCell
